//! Scripts and hooks.
use crate::e2e::{hemtt, tree, Node, Out, Root};
use hemtt_pbo::ReadablePbo;
use std::collections::BTreeMap;
use std::io::{Cursor, Read};
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

/// Folders (none) and files by path.
#[derive(Clone, Default, PartialEq, Debug)]
struct Fs(BTreeMap<String, Option<String>>);

fn parent(p: &str) -> &str {
    p.rsplit_once('/').map_or("", |x| x.0)
}
fn name(p: &str) -> &str {
    p.rsplit_once('/').map_or(p, |x| x.1)
}
fn above(p: &str) -> Vec<&str> {
    let mut v = vec![p];
    while !v[v.len() - 1].is_empty() {
        v.push(parent(v[v.len() - 1]));
    }
    v
}
impl Fs {
    fn dir(&self, p: &str) -> bool {
        p.is_empty() || matches!(self.0.get(p), Some(None))
    }
    fn file(&self, p: &str) -> Option<&String> {
        self.0.get(p).and_then(Option::as_ref)
    }
    fn exists(&self, p: &str) -> bool {
        p.is_empty() || self.0.contains_key(p)
    }
    fn children(&self, p: &str) -> Vec<&str> {
        self.0.keys().filter(|k| parent(k) == p).map(|k| name(k)).collect()
    }
    fn below(&self, p: &str) -> Vec<(String, Option<String>)> {
        self.0.iter().filter_map(|(k, v)| Some((k.strip_prefix(p)?.strip_prefix('/')?.to_string(), v.clone()))).collect()
    }
    fn remove(&mut self, p: &str) {
        let inside = format!("{p}/");
        self.0.retain(|k, _| k != p && !k.starts_with(&inside));
    }
    fn make_all(&mut self, p: &str) {
        for a in above(p) {
            if !a.is_empty() {
                self.0.entry(a.to_string()).or_insert(None);
            }
        }
    }
    fn copy(&mut self, from: &str, to: &str) {
        if let Some(f) = self.file(from).cloned() {
            self.0.insert(to.to_string(), Some(f));
            return;
        }
        let all = self.below(from);
        self.make_all(to);
        for (k, v) in all {
            self.0.insert(format!("{to}/{k}"), v);
        }
    }
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        self.0.iter().filter_map(|(k, v)| Some((k.clone(), v.as_ref()?.as_bytes().to_vec()))).collect()
    }
}
fn text(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
}

const NAMES: &[&str] = &["a", "b", "c.txt", "Ü x", "d.hpp", "e.f.g"];
const PIECES: &[&str] = &["one", "", "two\n", "\"ü\"", "a\\b", "${x}", "{}", "1"];

fn path(d: &mut D, fs: &Fs) -> String {
    if d.chance(3, 5) && !fs.0.is_empty() {
        let k: Vec<&String> = fs.0.keys().collect();
        return (*d.pick(&k)).clone();
    }
    let dirs: Vec<&str> = std::iter::once("").chain(fs.0.iter().filter(|x| x.1.is_none()).map(|x| x.0.as_str())).collect();
    let mut p = if d.chance(5, 6) { (*d.pick(&dirs)).to_string() } else { (*d.pick(NAMES)).to_string() };
    if !p.is_empty() {
        p.push('/');
    }
    p + *d.pick(NAMES)
}
fn expr(d: &mut D, base: &str, p: &str) -> String {
    let mut s = base.to_string();
    let mut parts: Vec<&str> = p.split('/').filter(|x| !x.is_empty()).collect();
    while !parts.is_empty() {
        let n = d.usize(1, parts.len());
        s.push_str(&format!(".join({})", text(&parts[..n].join("/"))));
        parts.drain(..n);
        if d.chance(1, 10) {
            s.push_str(".join(\"nothing\").parent()");
        }
    }
    s
}
fn start(d: &mut D) -> Fs {
    let mut fs = Fs::default();
    for _ in 0..d.usize(0, 7) {
        let p = path(d, &fs);
        if above(parent(&p)).iter().all(|a| fs.dir(a)) && !fs.exists(&p) {
            let c = d.vec(3, |d| *d.pick(PIECES)).concat();
            fs.0.insert(p, if d.bool() { None } else { Some(c) });
        }
    }
    fs
}

/// One statement, and what it prints.
struct Op {
    code: String,
    prints: String,
}
/// A statement for the files, which change as it says. The virtual files are layers above the
/// sources (`lower`): some uses of those are errors of the caller that are not always told.
fn op(d: &mut D, i: usize, base: &str, shown: &str, fs: &mut Fs, lower: Option<&Fs>) -> Op {
    for _ in 0..50 {
        let p = path(d, fs);
        let e = expr(d, base, &p);
        let q = path(d, fs);
        let virt = lower.is_some();
        let clash = |at: &str, dir: bool| lower.is_some_and(|l| l.0.get(at).is_some_and(|x| x.is_none() != dir));
        let through_file = |at: &str, fs: &Fs| above(at).iter().any(|a| fs.file(a).is_some());
        let (call, result): (String, Result<String, ()>) = match d.weighted(&[2, 2, 2, 1, 1, 1, 4, 4, 8, 4, 3, 3, 3, 3, 5, 5]) {
            0 => (format!("{e}.exists()"), Ok(fs.exists(&p).to_string())),
            1 => (format!("{e}.is_dir()"), Ok(fs.dir(&p).to_string())),
            2 => (format!("{e}.is_file()"), Ok(fs.file(&p).is_some().to_string())),
            3 if !virt && d.chance(1, 4) => (format!("{e}.join(\"..\").file_name()"), Err(())),
            3 => (format!("{e}.file_name()"), Ok(name(&p).to_string())),
            4 => (format!("{e}.to_string()"), Ok(format!("{shown}/{p}"))),
            5 => (format!("{e}.parent().to_string()"), Ok(format!("{shown}/{}", parent(&p)).trim_end_matches('/').to_string())),
            6 => {
                let l = if fs.dir(&p) { fs.children(&p).iter().map(|c| format!("{c}|")).collect() } else { String::new() };
                (format!("{{ let l = []; for x in {e}.list() {{ l.push(x.file_name()); }} l.sort(); let s = \"\"; for x in l {{ s += x + \"|\"; }} s }}"), Ok(l))
            }
            7 => (format!("{{ let s = {e}.open_file().read(); s.replace(\"\\n\", \"~\"); s }}"), fs.file(&p).map(|s| s.replace('\n', "~")).ok_or(())),
            8 => {
                let parts = d.vec(3, |d| *d.pick(PIECES));
                if virt && (fs.dir(&p) || clash(&p, false) || through_file(parent(&p), fs)) {
                    continue;
                }
                let ok = fs.dir(parent(&p)) && !fs.dir(&p);
                if ok {
                    fs.0.insert(p.clone(), Some(parts.concat()));
                }
                let w: String = parts.iter().map(|s| format!(" f.write({});", text(s))).collect();
                (format!("{{ {{ let f = {e}.create_file();{w} }} \"ok\" }}"), if ok { Ok("ok".into()) } else { Err(()) })
            }
            9 => {
                if virt && fs.dir(&p) {
                    continue;
                }
                let ok = fs.file(&p).is_some();
                if ok {
                    fs.remove(&p);
                }
                (format!("{e}.remove_file()"), if ok { Ok(String::new()) } else { Err(()) })
            }
            10 => {
                if virt && (fs.exists(&p) || clash(&p, true) || through_file(parent(&p), fs)) {
                    continue;
                }
                let ok = !fs.exists(&p) && fs.dir(parent(&p));
                if ok {
                    fs.0.insert(p.clone(), None);
                }
                (format!("{e}.create_dir()"), Ok(ok.to_string()))
            }
            11 => {
                if virt && (through_file(&p, fs) || above(&p).iter().any(|a| clash(a, true))) {
                    continue;
                }
                let ok = !through_file(&p, fs);
                if ok {
                    fs.make_all(&p);
                }
                (format!("{e}.create_dir_all()"), Ok(ok.to_string()))
            }
            12 => {
                if virt && (fs.file(&p).is_some() || !fs.children(&p).is_empty()) {
                    continue;
                }
                let ok = fs.dir(&p) && fs.children(&p).is_empty();
                if ok {
                    fs.remove(&p);
                }
                (format!("{e}.remove_dir()"), Ok(ok.to_string()))
            }
            13 => {
                if virt && fs.file(&p).is_some() {
                    continue;
                }
                let ok = fs.dir(&p) || virt;
                if fs.dir(&p) {
                    fs.remove(&p);
                }
                (format!("{e}.remove_dir_all()"), Ok(ok.to_string()))
            }
            n => {
                // copy or move
                if p == q || q.starts_with(&format!("{p}/")) || p.starts_with(&format!("{q}/")) {
                    continue;
                }
                let to = expr(d, base, &q);
                let ok = if virt {
                    if through_file(parent(&q), fs) || clash(&q, fs.dir(&p)) || fs.below(&p).iter().any(|(k, v)| clash(&format!("{q}/{k}"), v.is_none())) {
                        continue;
                    }
                    fs.exists(&p) && !fs.exists(&q) && fs.dir(parent(&q))
                } else if fs.dir(&p) {
                    // folders are made where they go
                    if fs.exists(&q) || through_file(&q, fs) {
                        continue;
                    }
                    true
                } else {
                    fs.file(&p).is_some() && fs.dir(parent(&q)) && !fs.dir(&q)
                };
                if ok {
                    fs.copy(&p, &q);
                    if n == 15 {
                        fs.remove(&p);
                    }
                }
                (format!("{e}.{}({to})", if n == 14 { "copy" } else { "move" }), if ok { Ok("true".into()) } else { Err(()) })
            }
        };
        return Op { code: format!("try {{ let r = {call}; print(`@{i} ${{r}}`); }} catch {{ print(\"@{i} E\"); }}\n"), prints: format!("@{i} {}", result.unwrap_or_else(|()| "E".into())) };
    }
    Op { code: format!("print(\"@{i} -\");\n"), prints: format!("@{i} -") }
}

/// What scripts print, with the script.
fn printed(o: &Out) -> Vec<(String, String)> {
    o.text
        .lines()
        .filter_map(|l| {
            let l = l.trim_start().strip_prefix("INFO")?.trim_start().strip_prefix('[')?;
            let (script, said) = l.split_once("] ").or_else(|| Some((l.strip_suffix(']')?, "")))?;
            said.starts_with(['@', '#']).then(|| (script.to_string(), said.trim_end().to_string()))
        })
        .collect()
}
fn same(got: &[(String, String)], want: &[(String, String)], o: &Out) -> R {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g.0 == w.0 && g.1 == w.1.trim_end(), "result", "print {i} is {g:?} instead of {w:?}\n{}", o.text);
    }
    ensure!(got.len() == want.len(), "result", "{} prints instead of {}; the next would be {:?}\n{}", got.len(), want.len(), want.get(got.len()), o.text);
    Ok(())
}
const TOML: &str = "name = \"A Mod\"\nprefix = \"abc\"\n[version]\nmajor = 1\nminor = 2\npatch = 3\ngit_hash = 0\n";

/// Files as a folder on disk holds them.
fn put(root: &Root, at: &str, fs: &Fs) {
    std::fs::create_dir_all(root.0.join(at)).expect("scratch");
    for (k, v) in &fs.0 {
        match v {
            None => std::fs::create_dir_all(root.0.join(at).join(k)).expect("scratch"),
            Some(t) => root.put(&format!("{at}/{k}"), t.as_bytes()),
        }
    }
}
fn read(at: &std::path::Path) -> Fs {
    fn go(at: &std::path::Path, rel: &str, out: &mut Fs) {
        for e in std::fs::read_dir(at).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
            if e.path().is_dir() {
                out.0.insert(r.clone(), None);
                go(&e.path(), &r, out);
            } else {
                out.0.insert(r, Some(String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()).to_string()));
            }
        }
    }
    let mut out = Fs::default();
    go(at, "", &mut out);
    out
}

/// Histories of file operations by scripts on the real files.
fn real(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    root.put(".hemtt/project.toml", TOML.as_bytes());
    let mut fs = start(d);
    put(&root, "play", &fs);
    let other = tree(&root.0);
    let base = *d.pick(&["HEMTT_RFS.join(\"play\")", "HEMTT_DIRECTORY.join(\"play\")", "HEMTT_OUT.parent().parent().join(\"play\")", "play"]);
    let shown = format!("{}/play", root.0.display());
    let scripts = ["main", "v1.2", "part-2", "sub/x"];
    let n = d.usize(1, 3);
    let mut first = (*d.pick(&scripts)).to_string();
    let mut want = vec![];
    let mut ops = 0;
    let mut all = String::new();
    let mut code = String::new();
    let mut called: Vec<&str> = vec![];
    let mut pieces = vec![];
    for s in scripts.iter().filter(|s| **s != first).take(n - 1) {
        called.push(s);
    }
    for at in 0..=called.len() {
        let me = if at == 0 { first.clone() } else { called[at - 1].to_string() };
        let label = format!("{}.rhai", if me.contains('/') { me.clone() } else { format!("scripts/{me}") });
        let mut text = String::from("let play = HEMTT_RFS.join(\"play\");\n");
        for _ in 0..d.usize(1, 9) {
            let o = op(d, ops, base, &shown, &mut fs, None);
            ops += 1;
            text.push_str(&o.code);
            want.push((label.clone(), o.prints));
        }
        if at == 0 {
            code = text;
            continue;
        }
        // the value of a script is that of its last expression
        let (value, says) = d.pick(&[("1 + 1 * 2", "3"), ("\"a b\"", "a b"), ("true", "true"), ("[1, 2]", "[1, 2]"), ("return 7; 8", "7"), ("1.5", "1.5")]);
        text.push_str(value);
        pieces.push((me, text));
        code.push_str(&format!("print(`@v ${{HEMTT.script({})}}`);\n", crate::scripts::text(called[at - 1])));
        let main = format!("{}.rhai", if first.contains('/') { first.clone() } else { format!("scripts/{first}") });
        want.push((main, format!("@v {says}")));
    }
    pieces.push((first.clone(), code));
    for (n, t) in &pieces {
        root.put(&format!(".hemtt/scripts/{n}.rhai"), t.as_bytes());
        all.push_str(&format!("// {n}\n{t}"));
    }
    c.input(&format!("{:?}\n{all}", other.keys().filter(|k| k.starts_with("play")).collect::<Vec<_>>()));
    let errors = want.iter().filter(|w| w.1.ends_with(" E") || w.1.ends_with(" false")).count();
    c.nontrivial(ops > 6 && errors < ops / 2);
    c.note_if(errors > 0, "an operation that fails");
    if d.chance(1, 10) {
        first.push_str(".rhai");
    }
    let o = hemtt(&root.0, &["script", &first])?;
    ensure!(o.code == Some(0), "script", "{:?}\n{}", o.code, o.text);
    same(&printed(&o), &want, &o)?;
    let got = read(&root.0.join("play"));
    ensure!(got == fs, "files", "the files are\n{got:?}\ninstead of\n{fs:?}\n{}", o.text);
    let now = tree(&root.0);
    for (k, v) in &other {
        ensure!(k.starts_with("play/") || now.get(k) == Some(v), "other-files", "{k} changed");
    }
    ensure!(now.keys().all(|k| other.contains_key(k) || ["play/", ".hemttout/", ".hemtt/scripts/"].iter().any(|p| k.starts_with(p))), "other-files", "{:?}", now.keys());
    Ok(())
}

fn pbo(bytes: &[u8]) -> Result<(BTreeMap<String, Vec<u8>>, BTreeMap<String, String>), Fail> {
    let mut p = ReadablePbo::from(Cursor::new(bytes)).map_err(|e| Fail::new("pbo", e.to_string()))?;
    let props = p.properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let names: Vec<String> = p.files().iter().map(|h| h.filename().to_string()).collect();
    let mut files = BTreeMap::new();
    for n in names {
        let mut b = vec![];
        p.file(&n).map_err(|e| Fail::new("pbo", e.to_string()))?.ok_or_else(|| Fail::new("pbo", n.clone()))?.read_to_end(&mut b).map_err(|e| Fail::new("pbo", e.to_string()))?;
        files.insert(n.replace('\\', "/"), b);
    }
    Ok((files, props))
}

const WALK: &str = "fn walk(p, rel) {\n for x in p.list() {\n let r = rel + \"/\" + x.file_name();\n if x.is_dir() { print(r + \"/\"); walk(x, r); continue; }\n let f = x.open_file();\n let t = f.read();\n let n = t.len();\n print(`${r} ${n}`);\n }\n}\n";

/// Histories of file operations by hooks on the virtual files.
fn virt(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    root.put("addons/main/$PBOPREFIX$", b"z\\abc\\addons\\main");
    root.put("addons/main/config.cpp", b"class CfgPatches { class abc_main { units[] = {}; weapons[] = {}; requiredVersion = 1.0; requiredAddons[] = {}; }; };");
    let inside = d.bool();
    let at = if inside { "addons/main/play" } else { "play" };
    root.put(".hemtt/project.toml", format!("{TOML}[files]\ninclude = [\"play/**\"]\n").as_bytes());
    let lower = start(d);
    put(&root, at, &lower);
    let mut fs = lower.clone();
    let base = format!("HEMTT_VFS.join({})", text(at));
    let shown = format!("/{at}");
    let mut want = vec![];
    let mut ops = 0;
    let mut all = String::new();
    let mut packed = lower.clone();
    let names = ["01_a", "02_b", "10", "2", "z"];
    for phase in ["pre_build", "post_build"] {
        let mut used: Vec<&str> = d.vec(3, |d| *d.pick(&names));
        used.sort_unstable();
        used.dedup();
        for n in used {
            let label = format!("{phase}/{n}.rhai");
            let mut code = String::new();
            for _ in 0..d.usize(1, 8) {
                let o = op(d, ops, &base, &shown, &mut fs, Some(&lower));
                ops += 1;
                code.push_str(&o.code);
                want.push((label.clone(), o.prints));
            }
            // the real files stay as they are
            if let Some((k, Some(v))) = lower.0.iter().find(|x| x.1.is_some()) {
                code.push_str(&format!("{{ let s = HEMTT_RFS.join({}).open_file().read(); s.replace(\"\\n\", \"~\"); print(`@r ${{s}}`); }}\n", text(&format!("{at}/{k}"))));
                want.push((label.clone(), format!("@r {}", v.replace('\n', "~"))));
            }
            root.put(&format!(".hemtt/hooks/{label}"), code.as_bytes());
            all.push_str(&format!("// {label}\n{code}"));
        }
        let last = format!("{phase}/zz.rhai");
        root.put(&format!(".hemtt/hooks/{last}"), format!("{WALK}walk({base}, \"#\");\nprint(\"@packed \" + HEMTT_OUT.join(\"addons\").join(\"abc_main.pbo\").exists());\n").as_bytes());
        want.push((last.clone(), format!("@packed {}", phase == "post_build")));
        for (k, v) in &fs.0 {
            want.push((last.clone(), v.as_ref().map_or_else(|| format!("#/{k}/"), |v| format!("#/{k} {}", v.chars().count()))));
        }
        if phase == "pre_build" {
            packed = fs.clone();
        }
    }
    c.input(&format!("{at}: {:?}\n{all}", lower.0.keys()));
    let before = tree(&root.0);
    let errors = want.iter().filter(|w| w.1.ends_with(" E") || w.1.ends_with(" false")).count();
    c.nontrivial(ops > 6 && errors < ops / 2 + 2);
    c.note(if inside { "in an addon" } else { "outside of addons" });
    let command = *d.pick(&["build", "dev"]);
    let o = hemtt(&root.0, &[command])?;
    ensure!(o.code == Some(0), "build", "{:?}\n{}", o.code, o.text);
    // the listings are in no order
    let sorted = |v: Vec<(String, String)>| {
        let (mut l, p): (Vec<_>, Vec<_>) = v.into_iter().partition(|x| x.1.starts_with('#'));
        l.sort();
        p.into_iter().chain(l).collect::<Vec<_>>()
    };
    same(&sorted(printed(&o)), &sorted(want), &o)?;
    let after = tree(&root.0);
    for (k, v) in &before {
        ensure!(after.get(k) == Some(v), "sources", "{k} of the sources changed");
    }
    ensure!(after.keys().all(|k| before.contains_key(k) || k.starts_with(".hemttout/")), "sources", "{:?}", after.keys());
    ensure!(read(&root.0.join(at)) == lower, "sources", "folders of the sources changed");
    let out = format!(".hemttout/{command}");
    let Some(Node::File(b)) = after.get(&format!("{out}/addons/abc_main.pbo")) else { vpc::fail!("pbo", "no PBO: {:?}", after.keys()) };
    let (files, _) = pbo(b)?;
    let got: BTreeMap<String, Vec<u8>> = files.into_iter().filter_map(|(k, v)| Some((k.strip_prefix("play/")?.to_string(), v))).collect();
    let want = if inside { packed.files() } else { BTreeMap::new() };
    ensure!(got == want, "packed", "packed is {:?} instead of {:?}\n{}", got.keys(), want.keys(), o.text);
    if command == "build" {
        let got: BTreeMap<String, Vec<u8>> = after.iter().filter_map(|(k, v)| Some((k.strip_prefix(&format!("{out}/play/"))?.to_string(), if let Node::File(b) = v { b.clone() } else { vec![] }))).collect();
        let want = if inside { BTreeMap::new() } else { fs.files() };
        ensure!(got == want, "copied", "copied is {:?} instead of {:?}\n{}", got.keys(), want.keys(), o.text);
    }
    Ok(())
}

fn utc(at: std::time::SystemTime) -> String {
    let s = at.duration_since(std::time::UNIX_EPOCH).map_or(0, |x| x.as_secs() as i64);
    let z = s / 86_400 + 719_468;
    let era = z / 146_097;
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + i64::from(m <= 2);
    format!("{y:04}-{m:02}-{:02} {:02}:{:02}:{:02}", doy - (153 * mp + 2) / 5 + 1, s / 3600 % 24, s / 60 % 60, s % 60)
}

/// What scripts and hooks know of the project, and which are run.
fn knows(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let title = d.string_of(&['a', 'B', ' ', '"', '\\', 'é', '$', '{', '}', '`'], 1, 8);
    let prefix = *d.pick(&["abc", "x", "a_b"]);
    let main = *d.pick(&["", "z", "x"]);
    let mut v: Vec<u64> = (0..3).map(|_| d.below(30)).collect();
    if d.bool() {
        v.push(d.below(2000));
    }
    let in_toml = d.bool();
    let numbers = |v: &[u64]| v.iter().map(u64::to_string).collect::<Vec<_>>().join(".");
    let mut toml = format!("name = {}\nprefix = \"{prefix}\"\n", text(&title));
    if !main.is_empty() {
        toml.push_str(&format!("mainprefix = \"{main}\"\n"));
    }
    toml.push_str("[version]\ngit_hash = 0\n");
    let file = |v: &[u64]| ["MAJOR", "MINOR", "PATCH", "BUILD"].iter().zip(v).map(|(n, v)| format!("#define {n} {v}\n")).collect::<String>();
    if in_toml {
        for (k, n) in ["major", "minor", "patch", "build"].iter().zip(&v) {
            toml.push_str(&format!("{k} = {n}\n"));
        }
    } else {
        root.put("addons/main/script_version.hpp", file(&v).as_bytes());
    }
    root.put(".hemtt/project.toml", toml.as_bytes());
    root.put("addons/main/$PBOPREFIX$", b"z\\abc\\addons\\main");
    root.put("addons/main/config.cpp", b"class CfgPatches { class abc_main { units[] = {}; weapons[] = {}; requiredVersion = 1.0; requiredAddons[] = {}; }; };");
    let command = *d.pick(&["script", "build", "dev", "release"]);
    let asks = [
        "HEMTT.project().name()",
        "HEMTT.project().prefix()",
        "HEMTT.project().mainprefix()",
        "HEMTT.project().version().to_string()",
        "HEMTT.project().version().to_string_short()",
        "HEMTT.project().version().major()",
        "HEMTT.project().version().minor()",
        "HEMTT.project().version().patch()",
        "HEMTT.project().version().build()",
        "HEMTT.mode()",
        "HEMTT.is_dev()",
        "HEMTT.is_launch()",
        "HEMTT.is_build()",
        "HEMTT.is_release()",
        "HEMTT_OUT.file_name()",
        "HEMTT_OUTPUT.file_name()",
        "HEMTT_RFS.to_string()",
        "HEMTT_VFS.join(\"addons/main\").is_dir()",
        "[HEMTT.version().major(), HEMTT.version().minor(), HEMTT.version().patch()].reduce(|s, x| if s == () { `${x}` } else { s + \".\" + x }) == HEMTT.version().to_string_short()",
    ];
    let answer = |i: usize, v: &[u64], phase: &str| match i {
        0 => title.clone(),
        1 => prefix.into(),
        2 => main.into(),
        3 => numbers(v),
        4 => numbers(&v[..3]),
        5..=7 => v[i - 5].to_string(),
        8 => v.get(3).copied().unwrap_or(0).to_string(),
        9 | 14 | 15 => command.into(),
        10 => (command == "dev").to_string(),
        11 => "false".into(),
        12 => (command == "build").to_string(),
        13 => (command == "release").to_string(),
        16 => root.0.display().to_string(),
        17 if matches!(phase, "scripts" | "post_release") => "E".into(),
        _ => "true".to_string(),
    };
    let phases: &[(&str, bool)] = &[("pre_build", command != "script"), ("post_build", command != "script"), ("pre_release", command == "release"), ("post_release", command == "release"), ("scripts", command == "script")];
    let mut want = vec![];
    let mut all = toml.clone();
    let mut now = v.clone();
    let mut changed = false;
    for (phase, runs) in phases {
        let mut names = d.vec_between(usize::from(*phase == "scripts"), 3, |d| *d.pick(&["a", "b", "10", "9", "a_b", "x y"]));
        if *phase == "scripts" {
            names.truncate(1);
        }
        names.sort_unstable();
        names.dedup();
        for n in names {
            let label = format!("{phase}/{n}.rhai");
            let mut code = String::new();
            for _ in 0..d.usize(1, 4) {
                let i = d.usize(0, asks.len() - 1);
                code.push_str(&format!("try {{ print(`@ ${{{}}}`); }} catch {{ print(\"@ E\"); }}\n", asks[i]));
                if *runs {
                    want.push((label.clone(), format!("@ {}", answer(i, &now, phase))));
                }
            }
            if !in_toml && *phase == "pre_build" && d.bool() {
                now = (0..d.usize(3, 4)).map(|_| d.below(40)).collect();
                changed = true;
                code.push_str(&format!("HEMTT_VFS.join(\"addons/main/script_version.hpp\").create_file().write({});\n", text(&file(&now))));
            }
            if d.chance(1, 4) {
                code.push_str("print(\"@t \" + date(\"[year]-[month]-[day] [hour]:[minute]:[second]\"));\n");
                if *runs {
                    want.push((label.clone(), "@t".to_string()));
                }
            }
            all.push_str(&format!("// {label}\n{code}"));
            root.put(&format!(".hemtt/{}{label}", if *phase == "scripts" { "" } else { "hooks/" }), code.as_bytes());
        }
        if *phase == "pre_build" && !runs {
            now.clone_from(&v);
        }
    }
    // the order is that of the file names
    c.input(&format!("{command}\n{all}"));
    c.nontrivial(want.len() > 2);
    c.note(command);
    c.note_if(changed, "version changed by a hook");
    let script = std::fs::read_dir(root.0.join(".hemtt/scripts")).ok().and_then(|mut x| x.next()).and_then(Result::ok).map(|e| e.file_name().to_string_lossy().trim_end_matches(".rhai").to_string());
    let args: Vec<&str> = match (command, &script) {
        ("script", Some(s)) => vec!["script", s],
        ("release", _) => vec!["release", "--no-archive"],
        _ => vec![command],
    };
    let from = utc(std::time::SystemTime::now());
    let o = hemtt(&root.0, &args)?;
    let to = utc(std::time::SystemTime::now());
    ensure!(o.code == Some(0), "command", "{:?}\n{}", o.code, o.text);
    let mut got = printed(&o);
    for g in &mut got {
        if let Some(t) = g.1.strip_prefix("@t ") {
            ensure!(t >= &from[..] && t <= &to[..], "date", "{t} is not between {from} and {to}");
            g.1 = "@t".into();
        }
    }
    same(&got, &want, &o)?;
    if command != "script" {
        let all = tree(&root.0.join(".hemttout").join(command));
        let Some(Node::File(b)) = all.get(&format!("addons/{prefix}_main.pbo")) else { vpc::fail!("pbo", "no PBO: {:?}", all.keys()) };
        let (_, props) = pbo(b)?;
        ensure!(props.get("version") == Some(&numbers(&now)), "version", "the PBO has {:?} instead of {}", props.get("version"), numbers(&now));
    }
    Ok(())
}

/// A script or hook that stops ends the command.
fn fails(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    root.put("addons/main/$PBOPREFIX$", b"z\\abc\\addons\\main");
    root.put("addons/main/config.cpp", b"class CfgPatches { class abc_main { units[] = {}; weapons[] = {}; requiredVersion = 1.0; requiredAddons[] = {}; }; };");
    let (toml, version) = TOML.split_once("major").expect("a version");
    let no_version = d.chance(1, 6);
    root.put(".hemtt/project.toml", if no_version { format!("{toml}git_hash = 0\n") } else { format!("{toml}major{version}") }.as_bytes());
    if no_version {
        root.put("addons/main/script_version.hpp", b"#define MAJOR 1\n#define MINOR 2\n#define PATCH 3\n");
    }
    let order = ["pre_build", "post_build", "pre_release", "post_release"];
    let command = if no_version { *d.pick(&["build", "dev", "release"]) } else { *d.pick(&["script", "build", "dev", "release"]) };
    let phase = match command {
        "script" => "scripts",
        _ if no_version => "pre_build",
        "release" => *d.pick(&order),
        _ => *d.pick(&order[..2]),
    };
    let who = *d.pick(&["bad", "a b", "x-1"]);
    let what = if no_version { 6 } else { d.usize(0, 5) };
    let value = *d.pick(&["1", "\"x\"", "()"]);
    let stop = |d: &mut D, k: usize| match k {
        0 => format!("throw {value};\n"),
        1 => "fatal(\"so it is\");\n".to_string(),
        2 => (*d.pick(&["nothing_there();\n", "1 + true;\n", "HEMTT_RFS.join(\"missing\").open_file();\n", "let x = 1; x.y.z;\n"])).to_string(),
        3 => (*d.pick(&["let = 1;\n", "print(\"x\n", "if true {\n", "#define A 1\n", "1 +\n"])).to_string(),
        _ => String::new(),
    };
    let mut say = format!("{}{who}", if phase == "scripts" { "scripts/" } else { "" });
    let code = match what {
        4 => {
            // by another script
            say = "missing".into();
            "HEMTT.script(\"missing\");\n".to_string()
        }
        5 => {
            let k = d.usize(0, 3);
            root.put(".hemtt/scripts/called.rhai", stop(d, k).as_bytes());
            say = "called".into();
            "let x = HEMTT.script(\"called\");\n".to_string()
        }
        6 => {
            say = "ersion".into();
            (*d.pick(&["HEMTT_VFS.join(\"addons/main/script_version.hpp\").remove_file();\n", "HEMTT_VFS.join(\"addons/main/script_version.hpp\").create_file().write(\"#define MAJOR x\");\n", "HEMTT_VFS.join(\"addons/main/script_version.hpp\").create_file();\n"])).to_string()
        }
        k => stop(d, k),
    };
    let before = d.bool();
    let text = format!("{}{code}", if before { "print(\"@before\");\n" } else { "" });
    let dir = if phase == "scripts" { ".hemtt/scripts".to_string() } else { format!(".hemtt/hooks/{phase}") };
    root.put(&format!("{dir}/{who}.rhai"), text.as_bytes());
    for p in order {
        root.put(&format!(".hemtt/hooks/{p}/zz.rhai"), b"print(\"@after\");\n");
    }
    c.input(&format!("{command}: {phase}/{who}.rhai {text}"));
    c.note(["throw", "fatal", "runtime error", "parse error", "missing script", "called script", "no version"][what]);
    c.note(command);
    c.nontrivial(true);
    if command == "script" && d.chance(1, 8) {
        let o = hemtt(&root.0, &["script", "bat"])?;
        ensure!(o.code == Some(1) && o.text.contains("bat") && o.text.contains("not found"), "missing", "{:?}\n{}", o.code, o.text);
        ensure!(who != "bad" || o.text.contains("did you mean `bad`?"), "missing", "no suggestion\n{}", o.text);
        return Ok(());
    }
    let args: Vec<&str> = if command == "script" { vec!["script", who] } else { vec![command] };
    let o = hemtt(&root.0, &args)?;
    ensure!(o.code == Some(1), "not-failed", "hemtt {args:?} ends with {:?}\n{}", o.code, o.text);
    ensure!(o.text.contains(&say), "not-said", "{say} is not named:\n{}", o.text);
    let ran = printed(&o);
    // later phases are not run
    for p in order.iter().skip_while(|p| **p != phase).skip(1) {
        ensure!(!ran.iter().any(|r| r.0.starts_with(p)), "goes-on", "{p} is run after {phase} failed\n{}", o.text);
    }
    if what != 3 {
        ensure!(ran.iter().any(|r| r.1 == "@before") == before, "not-run", "what comes before is not run\n{}", o.text);
    }
    let all = tree(&root.0);
    ensure!(phase == "post_release" || !all.keys().any(|f| f.ends_with(".zip")), "released", "{:?}", all.keys());
    ensure!(phase != "pre_build" || !all.keys().any(|f| f.ends_with(".pbo")), "built", "{:?}", all.keys());
    // a caught failure is none
    if what == 0 || what == 2 || what == 4 || (what == 5 && !std::fs::read_to_string(root.0.join(".hemtt/scripts/called.rhai")).unwrap_or_default().contains("fatal")) {
        root.put(&format!("{dir}/{who}.rhai"), format!("try {{ {code} }} catch {{ print(\"@caught\"); }}").as_bytes());
        let o = hemtt(&root.0, &args)?;
        ensure!(o.code == Some(0) && printed(&o).iter().any(|r| r.1 == "@caught"), "caught", "hemtt {args:?} ends with {:?}\n{}", o.code, o.text);
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E09",
        level: "exploration",
        rule: "more than six file operations of which at least half succeed, more than two questions, or a script that stops",
        facets: vec![Facet::new("real", 300, 20_000, real), Facet::new("virtual", 250, 15_000, virt), Facet::new("knows", 250, 10_000, knows), Facet::new("fails", 150, 5_000, fails)],
        probes: vec![],
        assumptions: &["copying, moving and removing in ways the docs do not describe (onto folders that exist, removing folders that are not empty from the virtual files) is left out"],
    }]
}
