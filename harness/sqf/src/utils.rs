//! The tools for single files: `hemtt utils`.
use crate::e2e::{hemtt, tree, Node, Root};
use std::collections::{BTreeMap, BTreeSet};
use vpc::pbo::{encode, Entry, Model};
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

fn part(d: &mut D) -> String {
    (*d.pick(&["data", "Data2", "é", "a b", "x.y", "functions", ".hidden", "ui"])).to_string()
}
fn name(d: &mut D) -> String {
    (*d.pick(&["config.bin", "fn_a.sqf", "A.paa", "noext", ".dot", "x y.rvmat", "é.txt", "end.", "b.sqfc"])).to_string()
}
/// Names as some packer may have written them; true: it does not stay in the folder
fn entry(d: &mut D, outside: &str) -> (String, bool) {
    let n = d.below(3);
    let mut v: Vec<String> = (0..n).map(|_| part(d)).collect();
    v.push(name(d));
    match d.weighted(&[30, 2, 1, 1, 1, 1]) {
        0 => (v.join("\\"), false),
        1 => (v.join("/"), false),
        2 => {
            // out of the folder, a few levels
            let up = d.usize(1, 3);
            let at = d.usize(0, v.len() - 1);
            for _ in 0..at + up {
                v.insert(at, "..".into());
            }
            (v.join(*d.pick(&["\\", "/"])), true)
        }
        3 => (format!("{outside}/{}", v.join("/")), true),
        4 => (format!("{outside}/{}", v.join("/")).replace('/', "\\"), true),
        _ => {
            let at = d.usize(0, v.len() - 1);
            v.insert(at, ".".into());
            (v.join("\\"), false)
        }
    }
}
fn plain(n: &str) -> String {
    n.replace('\\', "/").split('/').filter(|p| !p.is_empty() && *p != ".").collect::<Vec<_>>().join("/")
}
fn packed(d: &mut D, outside: &str) -> (Model, bool) {
    let mut m = Model { vers: d.chance(5, 6), props: vec![], entries: vec![] };
    if m.vers {
        for k in ["prefix", "version", "Author", "hemtt", "é"] {
            if d.bool() {
                let v = *d.pick(&["z\\abe\\addons\\main", "1.2.3", "", "a=b", "é", "two words"]);
                m.props.push((k.into(), v.into()));
            }
        }
    }
    let mut bad = false;
    let mut taken: BTreeSet<String> = ["$pboprefix$".to_string(), "properties.txt".into()].into();
    for i in 0..d.usize(0, 8) {
        let (n, out) = entry(d, outside);
        let low = plain(&n).to_lowercase();
        // names that differ only in case, and a file that is a folder too, can not be unpacked everywhere
        if taken.iter().any(|t| *t == low || t.starts_with(&format!("{low}/")) || low.starts_with(&format!("{t}/"))) {
            continue;
        }
        taken.insert(low);
        bad |= out;
        let size = *d.pick(&[0, 1, 20, 3_000, 40_000]);
        let fill = d.below(256) as u8;
        let mut e = Entry::new(&n, &[]);
        e.data = vec![fill; size];
        e.data.extend(format!("{i}").bytes());
        if d.chance(1, 10) {
            e.data.clear();
        }
        e.original = if d.bool() { e.data.len() as u32 } else { 0 };
        e.timestamp = d.below(2_000_000_000) as u32;
        m.entries.push(e);
    }
    (m, bad)
}
fn texts(t: &BTreeMap<String, Node>) -> BTreeSet<String> {
    t.keys().cloned().collect()
}
fn pbo(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let deep = "a/b/c/d";
    root.put(&format!("{deep}/x.txt"), b"x");
    let (m, bad) = packed(d, &root.0.join("outside").display().to_string());
    let bytes = encode(&m);
    let file = format!("{deep}/{}", d.pick(&["mod.pbo", "Mod_x.PBO", "é.pbo", "noext"]));
    root.put(&file, &bytes);
    c.input(&format!("{:?} {:?}", m.props, m.entries.iter().map(|e| (e.name.replace(&root.0.display().to_string(), "ROOT"), e.data.len())).collect::<Vec<_>>()));
    c.nontrivial(m.entries.len() > 1);
    c.note_if(bad, "a name that leads outside");
    let before = tree(&root.0);
    // unpack
    let to = format!("{deep}/{}", d.pick(&["out", "new/out"]));
    let exists = d.chance(1, 10);
    if exists {
        root.put(&format!("{to}/mine.txt"), b"mine");
    }
    let o = hemtt(&root.0, &["utils", "pbo", "unpack", &file, &to])?;
    let after = tree(&root.0);
    let inside: BTreeMap<String, Node> = after.iter().filter_map(|(k, v)| k.strip_prefix(&format!("{to}/")).map(|k| (k.to_string(), v.clone()))).collect();
    for (k, v) in &after {
        if !k.starts_with(&format!("{to}/")) {
            ensure!(before.get(k) == Some(v), "outside", "unpacking writes {k}, outside of {to}\n{}", o.text);
        }
    }
    ensure!(before.keys().all(|k| after.contains_key(k)), "removed", "unpacking removes files");
    if exists {
        ensure!(texts(&inside).len() == 1, "overwritten", "unpacking into a folder that exists writes {:?}", texts(&inside));
    } else if bad {
        ensure!(o.code != Some(0), "accepted", "a name leads outside but unpacking succeeds: {:?}", texts(&inside));
    } else {
        ensure!(o.code == Some(0), "refused", "{:?}\n{}", o.code, o.text);
        let mut want: BTreeMap<String, Vec<u8>> = m.entries.iter().map(|e| (plain(&e.name), e.data.clone())).collect();
        let mut lines = String::new();
        for (k, v) in &m.props {
            if k == "prefix" {
                want.insert("$PBOPREFIX$".into(), v.as_bytes().to_vec());
            } else {
                lines.push_str(&format!("{k}={v}\n"));
            }
        }
        if !lines.is_empty() {
            want.insert("properties.txt".into(), lines.into_bytes());
        }
        ensure!(texts(&inside) == want.keys().cloned().collect(), "files", "unpacked {:?} instead of {:?}", texts(&inside), want.keys());
        for (k, v) in &want {
            ensure!(matches!(&inside[k], Node::File(b) if b == v), "data", "{k} has other data");
        }
    }
    // one file
    if !m.entries.is_empty() {
        let e = d.pick(&m.entries).clone();
        let mut ask = e.name.clone();
        let wrong = d.chance(1, 6);
        if wrong {
            ask.push_str("_not");
        } else if d.bool() {
            ask = if ask.contains('/') { ask.replace('/', "\\") } else { ask.replace('\\', "/") };
        }
        if d.bool() {
            let o = hemtt(&root.0, &["utils", "pbo", "extract", &file, &ask])?;
            if wrong {
ensure!(o.text.contains("not found"), "extract", "a file that is not there is extracted:\n{}", o.text);
            } else {
                ensure!(o.code == Some(0) && o.stdout.ends_with(&e.data), "extract", "{ask} is printed with {} instead of {} bytes", o.stdout.len(), e.data.len());
            }
        } else {
            let taken = d.chance(1, 5);
            if taken {
                root.put("single", b"mine");
            }
            let o = hemtt(&root.0, &["utils", "pbo", "extract", &file, &ask, "single"])?;
            let got = std::fs::read(root.0.join("single")).ok();
            let want = if taken {
                Some(b"mine".to_vec())
            } else if wrong {
                None
            } else {
                Some(e.data.clone())
            };
            ensure!(got == want, "extract", "{ask} is extracted as {:?} instead of {:?} bytes\n{}", got.map(|g| g.len()), want.map(|g| g.len()), o.text);
        }
    }
    // the list
    let o = hemtt(&root.0, &["utils", "pbo", "inspect", &file, "--format", *d.pick(&["json", "pretty-json"])])?;
    ensure!(o.code == Some(0), "inspect", "{:?}\n{}", o.code, o.text);
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let at = out.find("\nFiles\n").and_then(|f| out[f..].find("\n[").map(|x| f + x + 1)).unwrap_or(0);
    // the log may go on behind it
    let end = out.rfind(']').map_or(out.len(), |x| x + 1);
    let list: serde_json::Value = serde_json::from_str(&out[at..end]).map_err(|x| Fail::new("inspect", format!("{x}: {out}")))?;
    let list = list.as_array().cloned().unwrap_or_default();
    ensure!(list.len() == m.entries.len(), "inspect", "{} of {} files are listed", list.len(), m.entries.len());
    for (l, e) in list.iter().zip(&m.entries) {
        ensure!(l["filename"] == e.name.as_str() && l["size"] == e.data.len() && l["original"] == e.original && l["timestamp"] == e.timestamp, "inspect", "{} is listed as {l}", e.name);
    }
    for (k, v) in &m.props {
        ensure!(out[..at].contains(&format!("  - {k}: {v}\n")), "inspect", "property {k} is not listed: {out}");
    }
    let n = bytes.len();
    let hash: String = bytes[n - 20..].iter().map(|b| format!("{b:02X}")).collect();
    let low: Vec<String> = m.entries.iter().map(|e| e.name.to_lowercase()).collect();
    let sorted = low.windows(2).all(|w| w[0] <= w[1]);
    // what is computed is the hash of a PBO in order
    let ordered = sorted && m.props.iter().skip(1).all(|p| p.0 != "prefix");
    ensure!(out[..at].to_uppercase().contains(&format!("STORED:  {hash}")), "inspect", "the hash {hash} is not listed: {out}");
    ensure!(!ordered || out[..at].to_uppercase().contains(&format!("ACTUAL:  {hash}")), "inspect", "the hash {hash} is not computed: {out}");
    ensure!(out[..at].contains("Sorted: true") == sorted, "inspect", "sorted is {sorted}: {out}");
    // damage
    if d.chance(1, 3) && !bytes.is_empty() {
        let cut = d.usize(0, n - 1);
        root.put("cut.pbo", &bytes[..cut]);
        let o = hemtt(&root.0, &["utils", "pbo", "unpack", "cut.pbo", "cut"])?;
        ensure!(o.code != Some(0), "cut", "a PBO of {cut} instead of {n} bytes is unpacked");
        ensure!(tree(&root.0.join("cut")).is_empty(), "cut", "a cut PBO leaves files");
    }
    Ok(())
}

// ---- letter case of commands ----

/// A piece of a script, and what it has to become; None: any letter case
fn piece(d: &mut D, out: &mut Vec<(String, Option<String>)>) {
    let same = |s: &str| (s.to_string(), Some(s.to_string()));
    match d.weighted(&[8, 3, 3, 4, 3, 2, 2]) {
        0 => {
            let n = *d.pick(&["getPos", "hint", "player", "typeOf", "setDir", "select", "addEventHandler", "forEach", "exitWith", "objNull", "isEqualTo", "b", "or", "then"]);
            let w: String = match d.below(4) {
                0 => n.into(),
                1 => n.to_lowercase(),
                2 => n.to_uppercase(),
                _ => n.chars().map(|c| if d.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            };
            let official = crate::sqf::database().wiki().commands().get(&w).map_or(w.clone(), |c| c.name().to_string());
            out.push((w, Some(official)));
            out.push(same(*d.pick(&[" ", "\n", "\t", "\r\n", " ; "])));
        }
        1 => out.push(same(*d.pick(&["_getPos ", "getPosX2 ", "my_player ", "player_ ", "5 ", "1e3 ", "PLAYERS ", "_x ", "é "]))),
        2 => {
            let q = *d.pick(&["\"", "'"]);
            let mut t = String::from(q);
            for _ in 0..d.below(4) {
                t.push_str(*d.pick(&["getpos", "PLAYER ", "//", "/*", "*/", "\n", "é", "(", ")"]));
                if d.chance(1, 3) {
                    t.push_str(if q == "'" { *d.pick(&["''", "\""]) } else { *d.pick(&["\"\"", "'"]) });
                }
            }
            t.push_str(q);
            out.push(same(&t));
            out.push(same(" "));
        }
        3 => {
            let mut t = String::from("/*");
            for _ in 0..d.below(4) {
                t.push_str(*d.pick(&["/", "*", "getpos ", " PLAYER", "\"", "'", "\n", "//", "é", " "]));
            }
            while t[2..].contains("*/") {
                t = format!("/*{}", t[2..].replace("*/", ""));
            }
            t.push_str("*/");
            out.push(same(&t));
            out.push(same(*d.pick(&["", " ", "*", "/ ", "\n"])));
        }
        4 => {
            let mut t = String::from("//");
            for _ in 0..d.below(4) {
                t.push_str(*d.pick(&["getpos ", " PLAYER", "\"", "'", "/*", "*/", "é"]));
            }
            out.push(same(&t));
            out.push(same(*d.pick(&["\n", "\r\n"])));
        }
        5 => {
            // what is given to a macro stays in one case or the other
            let m = *d.pick(&["MACRO", "GVAR", "FUNC_2", "LOG", "A"]);
            out.push(same(m));
            out.push(same("("));
            out.push(((*d.pick(&["getpos", "GetPos player", "x", "1", "PLAYER select 0"])).to_string(), None));
            out.push(same(")"));
            out.push(same(*d.pick(&[" ", ";\n", ""])));
        }
        _ => out.push(same(*d.pick(&["(", ") ", "[", "] ", " / ", " * ", "{", "}", "; ", " == ", "- ", "#", "\\"]))),
    }
}
fn letters(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let mut want: BTreeMap<String, Vec<(String, Option<String>)>> = BTreeMap::new();
    let mut changed = 0;
    for i in 0..d.usize(1, 4) {
        let f = format!("{}{}{i}.{}", d.pick(&["", "sub/", "sub/deep.x/"]), d.pick(&["fn_", "é ", "X"]), d.pick(&["sqf", "sqf", "sqf", "hpp", "txt", "SQF"]));
        let mut v = vec![];
        for _ in 0..d.usize(0, 14) {
            piece(d, &mut v);
            // an opening parenthesis behind a word in capitals is one of a macro
            let n = v.len();
            if n > 1 && v[n - 1].0 == "(" && v[n - 2].0.chars().last().is_some_and(|c| c.is_ascii_alphanumeric()) {
                v.insert(n - 1, (" ".into(), Some(" ".into())));
            }
        }
        let text: String = v.iter().map(|p| p.0.as_str()).collect();
        root.put(&format!("s/{f}"), text.as_bytes());
        c.input(&format!("{f}: {text}"));
        want.insert(f, v);
    }
    let single = d.chance(1, 4).then(|| d.pick(&want.keys().collect::<Vec<_>>()).to_string());
    let path = single.as_ref().map_or("s".to_string(), |f| format!("s/{f}"));
    let broken = single.is_none() && d.chance(1, 15);
    if broken {
        root.put("s/zz.sqf", b"getpos \xff");
    }
    let o = hemtt(&root.0, &["utils", "sqf", "case", &path])?;
    ensure!((o.code == Some(0)) != broken, "fails", "{:?}\n{}", o.code, o.text);
    for (f, v) in &want {
        let before: String = v.iter().map(|p| p.0.as_str()).collect();
        let got = std::fs::read(root.0.join("s").join(f)).map_err(|e| Fail::new("removed", e.to_string()))?;
        let got = String::from_utf8(got).map_err(|e| Fail::new("damaged", e.to_string()))?;
        let asked = single.as_ref().map_or_else(|| f.ends_with(".sqf"), |s| s == f);
        if !asked || broken && got == before {
            ensure!(got == before, "other file", "{f} is changed: {got:?}");
            continue;
        }
        ensure!(got.len() == before.len(), "length", "{f} is {got:?}");
        let mut at = 0;
        for (p, w) in v {
            let g = got.get(at..at + p.len()).ok_or_else(|| Fail::new("damaged", format!("{f} is {got:?}")))?;
            match w {
                Some(w) => ensure!(g == w, if p == w { "changed" } else { "command" }, "{p:?} becomes {g:?} instead of {w:?} in {got:?}"),
                None => ensure!(g.eq_ignore_ascii_case(p), "changed", "{p:?} becomes {g:?} in {got:?}"),
            }
            changed += usize::from(g != p);
            at += p.len();
        }
        ensure!(at == got.len(), "length", "{f} is {got:?}");
    }
    let now = tree(&root.0);
    let o = hemtt(&root.0, &["utils", "sqf", "case", &path])?;
    ensure!(broken || o.code == Some(0) && tree(&root.0) == now, "again", "a second run changes something\n{}", o.text);
    c.nontrivial(changed > 0);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, facets| Property { id, level: "exploration", rule, facets, probes: vec![], assumptions: &["the list of commands is a stand-in for the wiki of the game"] };
    vec![
        p("E04", "at least two files in the PBO", vec![Facet::new("pbo", 3_000, 60_000, pbo)]),
        p("E05", "a command is written in another case", vec![Facet::new("case", 1_500, 60_000, letters)]),
    ]
}
