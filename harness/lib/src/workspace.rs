//! Paths of a workspace, discovery of addons, rendering of reports.
use tower_lsp::lsp_types::{DiagnosticSeverity, NumberOrString};
use crate::project::Folder;
use codespan_reporting::diagnostic::LabelStyle;
use hemtt_common::config::PDriveOption;
use hemtt_workspace::addons::{Addon, Location};
use hemtt_workspace::reporting::diagnostic::Diagnostic;
use hemtt_workspace::reporting::{Label, Severity, WorkspaceFiles};
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use vpc::{ensure, fail, Case, Facet, Fail, Property, D, R};

// ---- paths ----

/// Files by path (without leading slash); no two names of a folder differ only in case.
#[derive(Default)]
struct Tree {
    files: BTreeMap<String, Vec<u8>>,
    /// lower case, as it is
    names: BTreeMap<String, String>,
    dirs: BTreeSet<String>,
}
impl Tree {
    fn add(&mut self, path: &str, data: Vec<u8>) -> bool {
        let parts: Vec<&str> = path.split('/').collect();
        for i in 1..=parts.len() {
            let p = parts[..i].join("/");
            if self.names.get(&p.to_ascii_lowercase()).is_some_and(|n| *n != p) || self.files.contains_key(&p) || (i == parts.len() && self.dirs.contains(&p)) {
                return false;
            }
        }
        for i in 1..=parts.len() {
            let p = parts[..i].join("/");
            self.names.insert(p.to_ascii_lowercase(), p.clone());
            if i < parts.len() {
                self.dirs.insert(p);
            }
        }
        self.files.insert(path.to_string(), data);
        true
    }
    fn has(&self, p: &str) -> bool {
        p.is_empty() || self.files.contains_key(p) || self.dirs.contains(p)
    }
}
fn part(d: &mut D) -> String {
    (*d.pick(&["main", "common", "Data", "x", "z", "abe", "addons", "sub dir", "v1.2", "é", "a_component_with_a_long_name"])).to_string()
}
fn file(d: &mut D) -> String {
    (*d.pick(&["script_component.hpp", "a.hpp", "B.hpp", "c.d.hpp", "noext", "é.hpp", "Config.cpp", "config.cpp", "mission.sqm", "Mission.SQM", "x y.sqf", ".dot", "end."])).to_string()
}
fn content(d: &mut D, n: usize) -> Vec<u8> {
    let eol = *d.pick(&["\n", "\r\n", "\r"]);
    let mut t: String = (0..d.below(3)).map(|i| format!("line {i}{eol}")).collect();
    t.push_str(&format!("// {n}é"));
    t.into_bytes()
}
struct Mounted {
    /// lower case with leading slash, folder without
    pointers: Vec<(String, String)>,
}
fn swap_case(d: &mut D, s: &str) -> String {
    let at = d.usize(0, s.len().max(1) - 1);
    let whole = d.bool();
    s.char_indices()
        .map(|(i, c)| {
            if whole || i == at {
                if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            } else {
                c
            }
        })
        .collect()
}

struct World {
    dir: Folder,
    disk: Tree,
    /// written through the workspace
    memory: BTreeMap<String, Vec<u8>>,
    mounted: Mounted,
    root: WorkspacePath,
}
impl World {
    /// What the workspace shows at a path.
    fn exact(&self, p: &str) -> Option<Option<&Vec<u8>>> {
        if let Some(m) = self.memory.get(p) {
            return Some(Some(m));
        }
        let included = format!("include/{p}");
        // the include folder lies over the project
        for q in [&included, &p.to_string()] {
            if let Some(f) = self.disk.files.get(q) {
                return Some(Some(f));
            }
            if self.disk.dirs.contains(q) {
                return Some(None);
            }
        }
        let part = format!("{p}/");
        if p.is_empty() || self.memory.keys().any(|k| k.starts_with(&part)) {
            return Some(None);
        }
        None
    }
    /// The path on disk of a path in any case.
    fn insensitive(&self, p: &str) -> Option<(String, String)> {
        let included = format!("include/{p}");
        [p, &included].iter().find_map(|q| self.disk.names.get(&q.to_ascii_lowercase()).cloned()).map(|n| (format!("./{n}"), n))
    }
}
fn normal(base: &str, path: &str) -> String {
    let mut v: Vec<&str> = if path.starts_with('/') { vec![] } else { base.split('/').filter(|s| !s.is_empty()).collect() };
    for p in path.split('/') {
        match p {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            p => v.push(p),
        }
    }
    v.join("/")
}

/// The include folder has no addons of its own, which would be the same folder twice.
fn outside(p: &mut [String]) {
    if p[0] == "include" && p[1] == "addons" {
        p[1] = "x".into();
    }
}
fn world(d: &mut D, c: &mut Case) -> Result<Option<World>, Fail> {
    let mut disk = Tree::default();
    let n = d.usize(2, if c.thorough { 24 } else { 12 });
    for i in 0..n {
        let top = *d.pick(&["addons", "addons", "optionals", "include", "include", "extra", ".hemtt"]);
        let depth = d.below(3) as usize + usize::from(top == "include");
        let mut p = vec![top.to_string()];
        p.extend((0..depth).map(|_| part(d)));
        p.push(file(d));
        outside(&mut p);
        let data = content(d, i);
        disk.add(&p.join("/"), data);
    }
    // mounted folders
    let mut mounted = Mounted { pointers: vec![] };
    let mut expect_error = None;
    for i in 0..d.below(4) {
        let mut at = vec![(*d.pick(&["addons", "addons", "optionals", "include"])).to_string()];
        at.extend((0..d.usize(1, 2)).map(|_| part(d)));
        outside(&mut at);
        let prefix: Vec<String> = (0..d.usize(1, 3)).map(|_| part(d)).collect();
        let prefix = if i > 0 && d.chance(1, 3) && !mounted.pointers.is_empty() {
            // inside another
            let p: String = mounted.pointers[0].0[1..].replace('/', "\\");
            format!("{p}\\{}", prefix[0])
        } else {
            prefix.join("\\")
        };
        let name = *d.pick(&["$PBOPREFIX$", "$pboprefix$", "$PBOPREFIX$.txt", "pboprefix.txt", "PBOPREFIX.TXT", "$PREFIX$", "$prefix$"]);
        let at = at.join("/");
        let text = if d.bool() { prefix.clone() } else { format!("prefix={prefix}\r\nversion=1\r\n") };
        if disk.add(&format!("{at}/{name}"), text.into_bytes()) {
            let p = format!("/{}", prefix.to_ascii_lowercase().replace('\\', "/"));
            if mounted.pointers.iter().any(|x| x.0 == p) {
                expect_error = Some("the same prefix twice");
            }
            mounted.pointers.push((p, at));
        }
    }
    let dir = Folder::new();
    for (p, data) in &disk.files {
        let at = dir.0.join(p);
        std::fs::create_dir_all(at.parent().expect("parent")).expect("folder");
        std::fs::write(at, data).expect("write");
    }
    let mut b = Workspace::builder().physical(&dir.0, LayerType::Source);
    if dir.0.join("include").is_dir() {
        b = b.physical(&dir.0.join("include"), LayerType::Include);
    }
    let r = b.memory().finish(None, true, &PDriveOption::Ignore);
    c.note_if(mounted.pointers.len() > 1, "several prefixes");
    let shown = |t: &Tree| t.files.iter().map(|(k, v)| format!("{k}: {:?}", String::from_utf8_lossy(v))).collect::<Vec<_>>().join("\n");
    c.input(&shown(&disk));
    if let Some(e) = expect_error {
        ensure!(r.is_err(), "accepted", "{e} is accepted");
        c.note("the same prefix twice");
        return Ok(None);
    }
    let root = r.map_err(|e| Fail::new("rejected", e.to_string()))?;
    let mut w = World { dir, disk, memory: BTreeMap::new(), mounted, root };
    // files that only exist in memory, or lie over others
    for i in 0..d.below(4) {
        let p = if d.bool() {
            let v: Vec<&String> = w.disk.files.keys().collect();
            (*d.pick(&v)).clone()
        } else {
            format!("{}/{}", d.pick(&["addons", "include", "z"]), file(d))
        };
        // the name is not that of a folder, and not below a file
        let mut above = p.clone();
        let mut ok = w.exact(&p) != Some(None);
        while let Some((a, _)) = above.clone().rsplit_once('/') {
            ok &= !matches!(w.exact(a), Some(Some(_)));
            above = a.to_string();
        }
        // no other case of the name, on disk or in memory
        ok &= w.insensitive(&p).is_none_or(|x| x.1 == p) && !w.memory.keys().any(|m| m.eq_ignore_ascii_case(&p) && *m != p);
        if ok {
            let data = content(d, 100 + i as usize);
            crate::ws::put(&w.root, &p, &data);
            w.memory.insert(p, data);
        }
    }
    if !w.memory.is_empty() {
        c.note("memory over disk");
        c.input(&format!("{}\n{:?}", shown(&w.disk), w.memory.iter().map(|(k, v)| format!("{k}: {:?}", String::from_utf8_lossy(v))).collect::<Vec<_>>()));
    }
    Ok(Some(w))
}
fn at_home<T>(dir: &std::path::Path, f: impl FnOnce() -> T) -> T {
    let back = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(dir).expect("cd");
    let r = f();
    std::env::set_current_dir(back).expect("cd back");
    r
}

fn locate(d: &mut D, c: &mut Case) -> R {
    let Some(w) = world(d, c)? else { return Ok(()) };
    c.nontrivial(!w.mounted.pointers.is_empty());
    // from where
    let all: Vec<String> = w.disk.files.keys().cloned().chain(w.memory.keys().cloned()).collect();
    let from = d.pick(&all).clone();
    let here = w.root.join(&from).map_err(|e| Fail::new("join", e.to_string()))?;
    let folder = from.rsplit_once('/').map_or("", |x| x.0).to_string();
    for _ in 0..6 {
        let target = d.pick(&all).clone();
        let path = match d.below(8) {
            // from the folder of the file
            0 | 1 => {
                let up: Vec<&str> = folder.split('/').filter(|x| !x.is_empty()).collect();
                let tp: Vec<&str> = target.split('/').collect();
                let common = up.iter().zip(&tp).take_while(|(a, b)| a == b).count();
                let mut v: Vec<&str> = vec![".."; up.len() - common];
                v.extend(&tp[common..]);
                v.join("/")
            }
            2 => format!("/{target}"),
            3 => format!("/{}", target.strip_prefix("include/").unwrap_or(&target)),
            4 | 5 if !w.mounted.pointers.is_empty() => {
                let (p, f) = d.pick(&w.mounted.pointers).clone();
                let inside = target.strip_prefix(&format!("{f}/")).map_or_else(|| file(d), str::to_string);
                format!("{p}/{inside}")
            }
            6 => file(d),
            _ => format!("/{}/{}/{}", part(d), part(d), file(d)),
        };
        let path = if d.chance(1, 3) { swap_case(d, &path) } else { path };
        let path = if d.bool() { path.replace('/', "\\") } else { path };
        let p = path.replace('\\', "/");
        if p.ends_with('/') || p.is_empty() {
            continue;
        }
        let found = at_home(&w.dir.0, || here.locate(&path)).map_err(|e| Fail::new("failed", format!("{path}: {e}")))?;
        // the model: data or folder, and the name on disk when the case was another
        let mut want: Option<(Option<Vec<u8>>, Option<String>)> = None;
        let mut unclear = false;
        let seen = |x: Option<Option<&Vec<u8>>>| x.map(|y| (y.cloned(), None));
        if p.starts_with('/') {
            let n = normal("", &p);
            want = seen(w.exact(&n));
            if want.is_none() {
                let lower = p.to_ascii_lowercase();
                let mut hits: Vec<_> = w.mounted.pointers.iter().filter(|x| lower.starts_with(&format!("{}/", x.0))).collect();
                hits.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
                let on_disk = |q: &str| w.insensitive(q).map(|(s, n)| (w.exact(&n).flatten().cloned(), Some(s)));
                let look = |q: &str| seen(w.exact(q)).or_else(|| on_disk(q));
                let deep = hits.first().map(|(pre, at)| format!("{at}/{}", &n[pre.len()..]));
                if let Some(q) = &deep {
                    want = look(q);
                }
                // what a shorter prefix has is not promised
                unclear = want.is_none() && hits.iter().skip(1).any(|(pre, at)| look(&format!("{at}/{}", &n[pre.len()..])).is_some());
                if want.is_none() {
                    want = on_disk(&n);
                }
            }
        } else {
            want = seen(w.exact(&normal(&folder, &p)));
        }
        if unclear {
            c.note("only below a shorter prefix");
            continue;
        }
        match (&found, &want) {
            (None, None) => c.note("nothing there"),
            (Some(f), None) => fail!("found", "{path} from {from} is {}, which should not be", f.path),
            (None, Some(x)) => fail!("not found", "{path} from {from} is not found, should be {x:?}"),
            (Some(f), Some((data, case))) => {
                c.note(if case.is_some() { "another case" } else if p.starts_with('/') { "absolute" } else { "relative" });
                // a prefix may be the path of its folder in another case
                let chance = case.is_none() && f.path.as_str().eq_ignore_ascii_case(&p) && f.path.as_str() != p;
                ensure!(chance || f.case_mismatch == *case, "case", "{path} from {from}: case {:?} instead of {case:?}", f.case_mismatch);
                match data {
                    None => ensure!(f.path.is_dir().unwrap_or(false), "folder", "{path} is {}, which is no folder", f.path),
                    Some(data) => {
                        ensure!(f.path.is_file().unwrap_or(false), "file", "{path} is {}, which is no file", f.path);
                        let mut got = Vec::new();
                        f.path.open_file().map_err(|e| Fail::new("open", e.to_string()))?.read_to_end(&mut got).map_err(|e| Fail::new("read", e.to_string()))?;
                        ensure!(got == *data, "another file", "{path} from {from} is {}: {:?} instead of {:?}", f.path, String::from_utf8_lossy(&got), String::from_utf8_lossy(data));
                        let text = f.path.read_to_string().map_err(|e| Fail::new("read", e.to_string()))?;
                        ensure!(text.replace('\r', "") == String::from_utf8_lossy(data).replace('\r', "") && !text.contains('\r'), "text", "{text:?}");
                    }
                }
            }
        }
    }
    // nothing was written to disk
    for (p, data) in &w.disk.files {
        ensure!(std::fs::read(w.dir.0.join(p)).is_ok_and(|x| x == *data), "written", "{p} changed on disk");
    }
    for p in w.memory.keys() {
        ensure!(w.disk.has(p) || !w.dir.0.join(p).exists(), "written", "{p} is on disk");
    }
    Ok(())
}

/// Names of a path, what was discovered.
fn names(d: &mut D, c: &mut Case) -> R {
    let Some(w) = world(d, c)? else { return Ok(()) };
    let all: BTreeSet<String> = w.disk.files.keys().cloned().chain(w.memory.keys().cloned()).collect();
    c.nontrivial(!w.mounted.pointers.is_empty());
    for p in &all {
        let at = w.root.join(p).map_err(|e| Fail::new("join", e.to_string()))?;
        ensure!(at.as_str() == format!("/{p}"), "path", "{} for {p}", at.as_str());
        let name = p.rsplit('/').next().unwrap_or("");
        ensure!(at.filename() == name, "name", "{} for {p}", at.filename());
        let dot = name.rsplit_once('.');
        let ext = dot.map(|x| x.1).filter(|_| dot.is_some_and(|x| !x.0.is_empty()));
        // what counts as the extension of .dot and end. is not promised
        let plain = dot.is_none_or(|x| !x.0.is_empty() && !x.1.is_empty());
        ensure!(!plain || at.extension().as_deref() == ext, "extension", "{:?} for {p}", at.extension());
        let with = at.with_extension("new").map_err(|e| Fail::new("with_extension", e.to_string()))?;
        let folder = p.rsplit_once('/').map_or(String::new(), |x| format!("/{}", x.0));
        ensure!(!plain || with.as_str() == format!("{folder}/{}.new", dot.map_or(name, |x| x.0)), "with extension", "{with} for {p}");
        ensure!(at.parent().as_str() == folder, "parent", "{} for {p}", at.parent());
        ensure!(at.is_include() == w.disk.has(&format!("include/{p}")), "include", "{p} is {}an include", if at.is_include() { "" } else { "not " });
        // the deepest mounted folder gives the name in the game
        let lower = format!("/{p}").to_lowercase();
        let mut hits: Vec<_> = w.mounted.pointers.iter().filter(|x| lower.starts_with(&format!("/{}/", x.1.to_lowercase()))).collect();
        hits.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
        let want = hits.first().map_or_else(|| format!("/{p}"), |(pre, at)| format!("{pre}{}", &p[at.len()..]));
        let got = at.as_virtual_str();
        // two prefixes for one folder
        let tie = hits.len() > 1 && hits[0].1 == hits[1].1;
        ensure!(tie || got == want, "virtual", "{got} instead of {want} for {p}");
        c.note_if(hits.len() > 1, "nested folders");
        // and leads back to the file, unless something else has that name
        if !tie && !hits.is_empty() && w.exact(want.trim_start_matches('/')).is_none() {
            let mut by: Vec<_> = w.mounted.pointers.iter().filter(|x| want.to_lowercase().starts_with(&format!("{}/", x.0))).collect();
            by.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
            if by.first().is_some_and(|x| x.1 == hits[0].1) {
                let back = at_home(&w.dir.0, || w.root.locate(&want)).map_err(|e| Fail::new("locate", e.to_string()))?;
                ensure!(back.as_ref().is_some_and(|b| b.path == at), "back", "{want} for {p} leads to {:?}", back.map(|b| b.path));
            }
        }
    }
    // discovered
    let below = |p: &str| ["include/", "optionals/", "addons/"].iter().any(|t| p.starts_with(t)) && !p.contains(".hemtt");
    // the include folder is also the root
    let mut shown: BTreeSet<String> = w.disk.files.keys().cloned().collect();
    shown.extend(w.disk.files.keys().filter_map(|p| p.strip_prefix("include/").map(str::to_string)));
    for (got, name) in [(w.root.addons(), "config.cpp"), (w.root.missions(), "mission.sqm")] {
        let got: Vec<String> = got.iter().map(|p| p.as_str().trim_start_matches('/').to_string()).collect();
        let set: BTreeSet<String> = got.iter().cloned().collect();
        ensure!(set.len() == got.len(), "twice", "{got:?}");
        let want: BTreeSet<String> = shown.iter().filter(|p| below(p) && p.rsplit('/').next().is_some_and(|n| n.eq_ignore_ascii_case(name))).cloned().collect();
        ensure!(set == want, "discovered", "{set:?} instead of {want:?}");
    }
    // every file is listed once
    let walked: Vec<String> = w.root.walk_dir().map_err(|e| Fail::new("walk", e.to_string()))?.into_iter().filter(|p| p.is_file().unwrap_or(false)).map(|p| p.as_str().trim_start_matches('/').to_string()).collect();
    let set: BTreeSet<String> = walked.iter().cloned().collect();
    shown.extend(w.memory.keys().cloned());
    // hidden by a file or folder of the same name in another layer
    shown.retain(|p| matches!(w.exact(p), Some(Some(_))));
    ensure!(set.len() == walked.len() && set == shown, "walked", "{set:?} instead of {shown:?}");
    Ok(())
}

// ---- addons ----

fn scan(d: &mut D, c: &mut Case) -> R {
    struct Want {
        name: String,
        location: &'static str,
        prefix: Vec<String>,
        binarize: Option<bool>,
    }
    let dir = Folder::new();
    let mut want: Vec<Want> = Vec::new();
    let mut problem = None;
    let mut shown = String::new();
    let names = ["main", "common", "Main", "MAIN", "weapons", "Weapons", "WEApons", "ui_f", "CUP_x", "cup_X", "é", "É", "straße", "STRAßE", "ünï", "ÜNÏ"];
    for _ in 0..d.usize(0, 6) {
        let location = *d.pick(&["addons", "addons", "optionals"]);
        let name = *d.pick(&names);
        if want.iter().any(|w| w.name == name && w.location == location) {
            continue;
        }
        if want.iter().any(|w| w.name.to_lowercase() == name.to_lowercase()) {
            problem = Some("the name is taken");
        }
        let prefix: Vec<String> = (0..d.usize(1, 4)).map(|_| part(d)).collect();
        let base = *d.pick(&["$PBOPREFIX$", "$PBOPREFIX$.txt", "PBOPREFIX.txt", "$PREFIX$"]);
        let file = match d.below(4) {
            0 => base.to_lowercase(),
            1 => base.to_uppercase(),
            2 => swap_case(d, base),
            _ => base.to_string(),
        };
        let at = format!("{location}/{name}");
        let text = match d.below(12) {
            0 => {
                problem = Some("no prefix");
                None
            }
            1 => {
                problem = Some("an invalid prefix");
                Some((*d.pick(&["", " \n", "\\x\\y", "a/b", "k=v\nl=m", "prefix="])).to_string())
            }
            k => Some(if k % 2 == 0 { prefix.join("\\") } else { format!("author=x\r\nPrefix = {}\r\n", prefix.join("\\")) }),
        };
        std::fs::create_dir_all(dir.0.join(&at)).expect("folder");
        if let Some(t) = &text {
            dir.put(&format!("{at}/{file}"), t);
        }
        shown.push_str(&format!("{at}/{file}: {text:?}\n"));
        let mut binarize = None;
        match d.below(8) {
            0 | 1 => {
                let b = d.bool();
                dir.put(&format!("{at}/addon.toml"), &format!("[binarize]\nenabled = {b}\n"));
                binarize = Some(b);
            }
            2 => {
                dir.put(&format!("{at}/addon.toml"), "");
                binarize = Some(true);
            }
            3 if d.chance(1, 3) => {
                dir.put(&format!("{at}/addon.toml"), "[binarize\n");
                problem = Some("invalid addon settings");
                shown.push_str("addon.toml is broken\n");
            }
            _ => (),
        }
        // other things in it
        if d.bool() {
            dir.put(&format!("{at}/sub/{base}"), "other\\prefix");
            dir.put(&format!("{at}/config.cpp"), "");
        }
        if d.chance(1, 8) {
            // the folder is somewhere else
            let real = dir.0.join(format!("linked{}", want.len()));
            std::fs::rename(dir.0.join(&at), &real).expect("move");
            std::os::unix::fs::symlink(&real, dir.0.join(&at)).expect("link");
            shown.push_str("is a link\n");
        }
        want.push(Want { name: name.into(), location, prefix, binarize });
    }
    if d.bool() {
        for l in ["addons", "optionals"] {
            dir.put(&format!("{l}/readme.txt"), "not an addon");
        }
    }
    c.input(&shown);
    c.nontrivial(want.len() > 1);
    c.note(problem.unwrap_or("valid"));
    let got = match Addon::scan(&dir.0) {
        Ok(_) if problem.is_some() => fail!("accepted", "with {}", problem.unwrap_or("")),
        Err(_) if problem.is_some() => return Ok(()),
        Err(e) => fail!("rejected", "{e}"),
        Ok(g) => g,
    };
    let set = |v: Vec<(String, String, Vec<String>, Option<bool>)>| v.into_iter().collect::<BTreeSet<_>>();
    ensure!(got.len() == want.len(), "number", "{} instead of {}", got.len(), want.len());
    let g = set(got.iter().map(|a| (a.name().to_string(), a.location().to_string(), a.prefix().clone().into_inner(), a.config().map(|c| c.binarize().enabled()))).collect());
    let w = set(want.iter().map(|w| (w.name.clone(), w.location.to_string(), w.prefix.clone(), w.binarize)).collect());
    ensure!(g == w, "addons", "{g:?} instead of {w:?}");
    for a in &got {
        ensure!(a.folder() == format!("{}/{}", a.location(), a.name()) && a.folder_pathbuf().to_string_lossy() == a.folder(), "folder", "{}", a.folder());
        ensure!(a.pbo_name("abe") == format!("abe_{}", a.name()), "pbo", "{}", a.pbo_name("abe"));
        let again: Location = a.location().to_string().parse().map_err(|_| Fail::new("location", "not read back"))?;
        ensure!(again == *a.location(), "location", "{again}");
    }
    Ok(())
}

// ---- reports ----

fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(x) = it.next() {
        if x == '\u{1b}' {
            for y in it.by_ref() {
                if y == 'm' {
                    break;
                }
            }
        } else {
            o.push(x);
        }
    }
    o
}
fn reports(d: &mut D, c: &mut Case) -> R {
    let alphabet = ['a', 'b', ' ', '"', 'é', '語', '\u{1F600}', ';', '\n', '\n', '\r'];
    let names = ["main.hpp", "addons/main/config.cpp", "é/x y.sqf"];
    let files: Vec<(&str, String)> = names
        .iter()
        .map(|n| {
            (
                *n,
                match d.below(6) {
                    0 => String::new(),
                    1 => "\n".into(),
                    _ => d.string_of(&alphabet, 1, 40),
                },
            )
        })
        .collect();
    let root = crate::ws::memory(&files);
    let labels: Vec<(usize, usize, usize, bool, Option<String>)> = d.vec_between(1, 4, |d| {
        let f = d.usize(0, 2);
        let text = files[f].1.replace('\r', "");
        let mut at: Vec<usize> = text.char_indices().map(|x| x.0).collect();
        at.push(text.len());
        let (a, b) = (*d.pick(&at), *d.pick(&at));
        (f, a.min(b), a.max(b), d.chance(3, 4), if d.chance(3, 4) { Some(d.string_of(&['x', 'y', ' ', 'é'], 1, 4)) } else { None })
    });
    let severity = *d.pick(&[Severity::Help, Severity::Note, Severity::Warning, Severity::Error, Severity::Bug]);
    let (note, help, suggestion) = (d.bool(), d.bool(), d.bool());
    c.input(&format!("{files:?}\n{labels:?}"));
    c.nontrivial(labels.iter().any(|l| files[l.0].1.contains('\n')));
    let mut diag = Diagnostic::new("C-1", "The message").set_severity(severity);
    for (f, a, b, primary, m) in &labels {
        let file = root.join(names[*f]).expect("join");
        let mut l = if *primary { Label::primary(file, *a..*b) } else { Label::secondary(file, *a..*b) };
        if let Some(m) = m {
            l = l.with_message(m.as_str());
        }
        diag = diag.with_label(l);
    }
    if note {
        diag = diag.with_note("a note\nof two lines");
    }
    if help {
        diag = diag.with_help("some help");
    }
    if suggestion {
        diag = diag.with_suggestion("do this");
    }
    // line and column of a byte, from one
    let place = |f: usize, b: usize| {
        let text = files[f].1.replace('\r', "");
        let before = &text[..b];
        let line = before.matches('\n').count();
        let col = before.rsplit('\n').next().unwrap_or("").chars().count();
        // at the end of a text that ends with a line, one is still on that line
        let last = text.lines().count().max(1) - 1;
        if line > last {
            let l = text.lines().last().unwrap_or("");
            return (last + 1, l.chars().count() + 1 + 1);
        }
        (line + 1, col + 1)
    };
    let known = WorkspaceFiles::new();
    let text = plain(&diag.to_string(&known));
    let head = match severity {
        Severity::Help => "help",
        Severity::Note => "note",
        Severity::Warning => "warning",
        Severity::Error => "error",
        Severity::Bug => "bug",
    };
    ensure!(text.starts_with(&format!("{head}[C-1]: The message\n")), "head", "{text}");
    for (on, t) in [(note, "note: a note"), (help, "help: some help"), (suggestion, "try: do this")] {
        ensure!(text.contains(t) == on, "notes", "{t} in {text}");
    }
    if labels.len() == 1 {
        let (f, a, _, _, m) = &labels[0];
        let (line, col) = place(*f, *a);
        // at the very end after a line break either line may be told
        let src = files[*f].1.replace('\r', "");
        let end = *a == src.len() && src.ends_with('\n');
        ensure!(end || text.contains(&format!("{}:{line}:{col}\n", names[*f])), "place", "{}:{line}:{col} is not in\n{text}", names[*f]);
        c.note_if(end, "at the end");
        if let Some(m) = m {
            ensure!(text.contains(m.trim()), "label", "{m:?} is not in\n{text}");
        }
        let l = src.lines().nth(line - 1).unwrap_or("").trim_end();
        ensure!(end || text.contains(&format!("{line} │ {l}")) || l.is_empty() || text.contains(l), "line", "{l:?} is not in\n{text}");
    } else {
        for l in &labels {
            ensure!(text.contains(names[l.0]), "file", "{} is not in\n{text}", names[l.0]);
        }
    }
    // annotations: the primary labels that say something
    let got = diag.to_annotations(&known);
    let want: Vec<_> = labels.iter().filter(|l| l.3 && l.4.is_some()).collect();
    ensure!(got.len() == want.len(), "annotations", "{} instead of {}", got.len(), want.len());
    for (g, w) in got.iter().zip(&want) {
        let (file, m) = (names[w.0], w.4.clone().unwrap_or_default());
        ensure!(g.path.trim_start_matches('/') == file && g.message == m && g.title == "The message", "annotation", "{g:?} for {w:?}");
        let src = files[w.0].1.replace('\r', "");
        for (b, got) in [(w.1, (g.start_line, g.start_column)), (w.2, (g.end_line, g.end_column))] {
            let end = b == src.len() && src.ends_with('\n');
            ensure!(end || got == place(w.0, b), "annotation place", "{got:?} instead of {:?} in {file}", place(w.0, b));
        }
        let level = match severity {
            Severity::Help | Severity::Note => "notice",
            Severity::Warning => "warning",
            _ => "error",
        };
        ensure!(g.level.to_string() == level, "level", "{} for {head}", g.level);
        ensure!(g.line() == format!("{}||{}||{}||{}||{level}||The message||{m}||{}\n", g.start_line, g.end_line, g.start_column, g.end_column, g.path), "annotation line", "{}", g.line());
    }
    // editors: all labels, with lines from zero and units of UTF-16
    let got = diag.to_lsp(&known);
    ensure!(got.len() == labels.len(), "editor", "{} instead of {}", got.len(), labels.len());
    for ((file, g), w) in got.iter().zip(&labels) {
        let level = match severity {
            Severity::Help => DiagnosticSeverity::HINT,
            Severity::Note => DiagnosticSeverity::INFORMATION,
            Severity::Warning => DiagnosticSeverity::WARNING,
            _ => DiagnosticSeverity::ERROR,
        };
        ensure!(file.as_str().trim_start_matches('/') == names[w.0] && g.message == "The message" && g.severity == Some(level) && g.code == Some(NumberOrString::String("C-1".into())), "editor", "{g:?} in {}", file.as_str());
        let src = files[w.0].1.replace('\r', "");
        for (b, got) in [(w.1, g.range.start), (w.2, g.range.end)] {
            let end = b == src.len() && src.ends_with('\n');
            let line = src[..b].matches('\n').count();
            let units = src[..b].rsplit('\n').next().unwrap_or("").encode_utf16().count();
            ensure!(end || (got.line as usize, got.character as usize) == (line, units), "editor place", "{got:?} instead of {line}:{units} in {}", names[w.0]);
        }
    }
    // what is kept of the labels
    for (l, w) in diag.labels.iter().zip(&labels) {
        let x = l.to_codespan();
        ensure!(x.range == (w.1..w.2) && (x.style == LabelStyle::Primary) == w.3, "kept", "{x:?}");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, facets| Property { id, level: "exploration", rule, facets, probes: vec![], assumptions: &[] };
    vec![
        p("W01", "at least one folder is mounted under a prefix", vec![Facet::new("locate", 8_000, 250_000, locate), Facet::new("names", 8_000, 250_000, names)]),
        p("W02", "at least two addons", vec![Facet::new("scan", 10_000, 300_000, scan)]),
        p("W03", "a label in a file with several lines", vec![Facet::new("reports", 40_000, 1_500_000, reports)]),
    ]
}
