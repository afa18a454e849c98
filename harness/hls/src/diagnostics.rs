//! What editors show of the mistakes in configs.
use crate::client::{Editor, Mark};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vpc::{Case, Facet, Fail, Property, D, R};

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Fine,
    Define,
    Comment,
    Value,
    Parent,
    Case,
    Missing,
    Include(String),
    /// what the addon of this number is
    Own,
    /// wrong for all addons but one
    Except(String),
}
#[derive(Clone, Debug)]
struct Line {
    n: usize,
    kind: Kind,
    lead: &'static str,
}
impl Line {
    /// Its text, and what is marked in it: the text and the code.
    fn text(&self, own: &str) -> (String, Vec<(String, &'static str)>) {
        let (l, n) = (self.lead, format!("{own}{}", self.n));
        match &self.kind {
            Kind::Fine => (format!("{l}v{n} = {};", self.n), vec![]),
            Kind::Define => (format!("#define DEF{n} hello"), vec![]),
            Kind::Comment => (format!("{l}// v{n} = hello;"), vec![]),
            Kind::Value => (format!("{l}v{n} = hello;"), vec![("hello".into(), "L-C01")]),
            Kind::Parent => (format!("{l}class C{n}: Nowhere{n} {{}};"), vec![(format!("Nowhere{n}"), "L-C04")]),
            Kind::Case => (format!("{l}class C{n} {{}}; class D{n}: c{n} {{}};"), vec![(format!("C{n}"), "L-C05"), (format!("c{n}"), "L-C05")]),
            Kind::Missing => (format!("#include \"nothing{n}.hpp\""), vec![(format!("nothing{n}.hpp"), "PE12")]),
            Kind::Include(f) => (format!("#include \"{f}\""), vec![]),
            Kind::Own => (format!("#define IN_{own} 1"), vec![]),
            Kind::Except(a) => (format!("{l}v{n} = IN_{a};"), vec![(format!("IN_{a}"), "L-C01")]),
        }
    }
}

/// A file: its name inside the folder, a word for the names in it, and its lines.
#[derive(Clone, Debug)]
struct File {
    rel: String,
    own: String,
    lines: Vec<Line>,
    counter: usize,
}
impl File {
    fn text(&self) -> String {
        self.lines.iter().map(|l| l.text(&self.own).0 + "\n").collect()
    }
}
#[derive(Clone, Debug)]
struct Folder {
    path: PathBuf,
    files: Vec<File>,
    open: bool,
}
impl Folder {
    fn file(&self, rel: &str) -> Option<&File> {
        self.files.iter().find(|f| f.rel == rel)
    }
    fn shown(&self, want: &mut BTreeMap<String, Vec<Mark>>) {
        fn walk(at: &Folder, who: &str, f: &File, marks: &mut Vec<(String, Mark)>) -> Option<(String, Mark)> {
            for (k, l) in f.lines.iter().enumerate() {
                let (t, m) = l.text(&f.own);
                let mark: Vec<(String, Mark)> = m.into_iter().map(|(m, code)| {
                    let start = t.rfind(&m).expect("in the line");
                    let units = |s: &str| s.encode_utf16().count() as u64;
                    (at.path.join(&f.rel).to_str().expect("name").to_string(), (k as u64, units(&t[..start]), units(&t[..start + m.len()]), code.to_string(), 1))
                }).collect();
                match (&l.kind, mark) {
                    (Kind::Missing, m) => return m.into_iter().next(),
                    (Kind::Include(i), _) => {
                        let rel = if let Some(abs) = i.strip_prefix('\\') { format!("addons/{}", abs.trim_start_matches("z\\x\\").replace('\\', "/")) } else { format!("{}/{i}", f.rel.rsplit_once('/').expect("folder").0) };
                        if let Some(stop) = walk(at, who, at.file(&rel).expect("included"), marks) {
                            return Some(stop);
                        }
                    }
                    (Kind::Except(a), _) if a == who => {}
                    (_, m) => marks.extend(m),
                }
            }
            None
        }
        for f in self.files.iter().filter(|f| f.rel.ends_with("config.cpp")) {
            let mut marks = vec![];
            if let Some(stop) = walk(self, &f.own, f, &mut marks) {
                marks = vec![stop];
            }
            // errors of the config as a whole hide what is found later: warnings stay
            for (f, m) in marks {
                want.entry(f).or_default().push(m);
            }
        }
    }
}

fn line(d: &mut D, f: &mut File, bad: bool) -> Line {
    f.counter += 1;
    let kind = if bad { d.pick(&[Kind::Value, Kind::Parent, Kind::Case, Kind::Missing, Kind::Value]).clone() } else { d.pick(&[Kind::Fine, Kind::Fine, Kind::Define, Kind::Comment]).clone() };
    Line { n: f.counter, kind, lead: *d.pick(&["", "", "  ", "\t", "/* é */ ", "/* 😀 */"]) }
}
fn edit(d: &mut D, f: &mut File) {
    for _ in 0..d.usize(1, 3) {
        let k = d.usize(usize::from(!f.lines.is_empty()), f.lines.len());
        match d.below(4) {
            // put right what is wrong
            0 | 1 => {
                if let Some(l) = f.lines.iter_mut().find(|l| !matches!(l.kind, Kind::Fine | Kind::Define | Kind::Comment | Kind::Include(_) | Kind::Own)) {
                    l.kind = Kind::Fine;
                }
            }
            2 => {
                let l = line(d, f, true);
                f.lines.insert(k, l);
            }
            _ => {
                let l = line(d, f, false);
                f.lines.insert(k, l);
            }
        }
    }
}
fn make(d: &mut D, path: PathBuf) -> Folder {
    let mut w = Folder { path, files: vec![], open: false };
    let mut names = vec!["main", "ui", "my ui", "bäd", "a%20b #1"];
    d.shuffle(&mut names);
    let n = d.usize(1, 2);
    for (k, a) in names.iter().take(n).enumerate() {
        let dir = format!("addons/{a}");
        let mut config = File { rel: format!("{dir}/config.cpp"), own: format!("a{k}_"), lines: vec![], counter: 0 };
        config.lines.push(Line { n: 0, kind: Kind::Own, lead: "" });
        for _ in 0..d.usize(1, 4) {
            let bad = d.chance(1, 3);
            let l = line(d, &mut config, bad);
            config.lines.push(l);
        }
        if d.bool() {
            let only = d.chance(1, 3);
            let mut inner = File { rel: format!("{dir}/shared one.hpp"), own: format!("b{k}_"), lines: vec![], counter: 0 };
            for _ in 0..d.usize(1, 3) {
                let bad = d.chance(1, 3) && !only;
                let mut l = line(d, &mut inner, bad);
                if only {
                    l.kind = Kind::Define;
                } else if d.chance(1, 3) {
                    l.kind = Kind::Except((*d.pick(&["a0_", "a1_"])).to_string());
                }
                inner.lines.push(l);
            }
            let at = d.usize(1, config.lines.len());
            config.lines.insert(at, Line { n: 0, kind: Kind::Include("shared one.hpp".into()), lead: "" });
            w.files.push(inner);
        }
        // what another addon shares
        if let Some(other) = w.files.iter().find(|f| f.rel.ends_with(".hpp") && !f.rel.starts_with(&dir)).filter(|_| d.bool()) {
            let at = d.usize(1, config.lines.len());
            let path = format!("\\z\\x\\{}", other.rel.trim_start_matches("addons/").replace('/', "\\"));
            config.lines.insert(at, Line { n: 0, kind: Kind::Include(path), lead: "" });
            let first = other.own.replace('b', "a");
            let shared = other.rel.clone();
            if d.bool() {
                // each of the two has a mistake there that the other has not
                let shared = w.files.iter_mut().find(|f| f.rel == shared).expect("shared");
                for own in [first, format!("a{k}_")] {
                    shared.counter += 1;
                    let n = shared.counter;
                    let at = d.usize(0, shared.lines.len());
                    shared.lines.insert(at, Line { n, kind: Kind::Except(own), lead: *d.pick(&["", "  ", "/* é */ "]) });
                }
            }
        }
        w.files.push(config);
    }
    w
}
fn put(p: &Path, text: &str) {
    std::fs::create_dir_all(p.parent().expect("parent")).expect("scratch");
    // at once: nothing may be read while half of it is there
    let tmp = vpc::scratch().join("new file");
    std::fs::write(&tmp, text).expect("scratch");
    std::fs::rename(&tmp, p).expect("scratch");
}

fn tell(e: Fail, log: &[String]) -> Fail {
    Fail::new(&e.sig, format!("{}\n{}", e.msg, log.join("\n")))
}

fn history(d: &mut D, c: &mut Case) -> R {
    let root = vpc::scratch().join("editor");
    let _ = std::fs::remove_dir_all(&root);
    let mut names = vec!["mod", "mod2", "my mod", "möd", "other", "mod/tools/in", "mod/tools"];
    d.shuffle(&mut names);
    let n = d.usize(1, 3);
    let mut folders: Vec<Folder> = names.iter().take(n).map(|n| make(d, root.join(n))).collect();
    for w in &folders {
        for f in &w.files {
            put(&w.path.join(&f.rel), &f.text());
        }
        for f in w.files.iter().filter(|f| f.rel.ends_with("config.cpp")) {
            let dir = f.rel.rsplit_once('/').expect("folder").0;
            put(&w.path.join(dir).join("$PBOPREFIX$"), &dir.replace("addons/", "z\\x\\"));
        }
    }
    put(&root.join("outside/some file.sqf"), "hint \"a\";\n");
    put(&root.join("outside/config.cpp"), "x = hello;\n");
    let first = d.usize(1, n);
    for w in folders.iter_mut().take(first) {
        w.open = true;
    }
    let mut log = vec![];
    for w in &folders {
        for f in &w.files {
            log.push(format!("{}/{}:\n{}", w.path.file_name().expect("name").to_string_lossy(), f.rel, f.text()));
        }
    }
    let all = |folders: &[Folder]| {
        let mut want = BTreeMap::new();
        for w in folders.iter().filter(|w| w.open) {
            w.shown(&mut want);
        }
        for m in want.values_mut() {
            m.sort();
            m.dedup();
        }
        want
    };
    let open: Vec<PathBuf> = folders.iter().filter(|w| w.open).map(|w| w.path.clone()).collect();
    log.push(format!("open {:?}", open.iter().map(|p| p.file_name().expect("name")).collect::<Vec<_>>()));
    c.input(&log.join("\n"));
    let mut e = Editor::start(&open)?;
    e.expect(&all(&folders), "at the start").map_err(|e| tell(e, &log))?;
    let mut changes = 0;
    for step in 0..d.usize(1, 6) {
        let what = match d.weighted(&[8, 2, 1, 1, 2]) {
            0 | 1 => {
                // one save, or several in a row
                let k = d.usize(0, folders.len() - 1);
                let mut what = String::new();
                for _ in 0..if d.chance(1, 4) { d.usize(2, 5) } else { 1 } {
                    let w = &mut folders[k];
                    let i = d.usize(0, w.files.len() - 1);
                    edit(d, &mut w.files[i]);
                    let p = w.path.join(&w.files[i].rel);
                    let t = w.files[i].text();
                    put(&p, &t);
                    e.saved(&p)?;
                    what.push_str(&format!("save {} as:\n{t}", p.strip_prefix(&root).expect("inside").display()));
                }
                changes += 1;
                what
            }
            2 => {
                let p = root.join(*d.pick(&["outside/some file.sqf", "outside/config.cpp"]));
                e.open(&p, "hint \"a\";\n")?;
                e.saved(&p)?;
                let _ = e.hover(&p, 0, 1)?;
                "a file of no folder".into()
            }
            3 => {
                e.notify("workspace/didChangeConfiguration", json!({"settings": {}}))?;
                "settings".into()
            }
            _ => {
                let k = d.usize(0, folders.len() - 1);
                let p = folders[k].path.clone();
                folders[k].open = !folders[k].open;
                if folders[k].open {
                    e.change_folders(&[p], &[])?;
                } else {
                    e.change_folders(&[], &[p])?;
                }
                c.note("folders");
                format!("{} {}", if folders[k].open { "add" } else { "remove" }, names[k])
            }
        };
        c.input(&what);
        log.push(what);
        e.expect(&all(&folders), &format!("step {step}")).map_err(|e| tell(e, &log))?;
    }
    // nothing follows
    e.settle(150)?;
    e.expect(&all(&folders), "at the end").map_err(|e| tell(e, &log))?;
    c.note_if(folders.iter().any(|w| w.files.len() > 2), "included");
    c.nontrivial(changes > 0);
    drop(e);
    let _ = std::fs::remove_dir_all(&root);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "H01",
        level: "exploration",
        rule: "a file is saved after a change",
        facets: vec![Facet::new("history", 250, 20_000, history).hang(180)],
        probes: vec![],
        assumptions: &[],
    }]
}
