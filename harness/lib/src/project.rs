//! Project, addon, launch and lint settings; versions; prefix files.
use codespan_reporting::diagnostic::Severity;
use hemtt_common::config::{AddonConfig, LaunchOptions, LintConfig, LintConfigOverride, PDriveOption, ProjectConfig};
use hemtt_common::prefix::Prefix;
use hemtt_common::version::Version;
use hemtt_common::BISignVersion;
use hemtt_workspace::lint::{AnyLintRunner, Lint, LintGroupRunner, LintManager, LintRunner};
use hemtt_workspace::reporting::{Code, Codes, Processed};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use vpc::{ensure, fail, Case, Facet, Fail, Property, D, R};

/// A folder for one case.
pub struct Folder(pub PathBuf);
impl Folder {
    pub fn new() -> Self {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("VP_SCRATCH").map_or_else(|_| std::env::temp_dir(), PathBuf::from);
        let p = base.join(format!("case-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch folder");
        Self(p)
    }
    pub fn put(&self, name: &str, text: &str) -> PathBuf {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().expect("parent")).expect("folder");
        std::fs::write(&p, text).expect("write");
        p
    }
}
impl Drop for Folder {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---- TOML ----

fn quoted(d: &mut D, s: &str) -> String {
    if d.chance(1, 3) && !s.contains('\'') && !s.contains('\n') {
        return format!("'{s}'");
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn key(d: &mut D, s: &str) -> String {
    if s.is_empty() || d.chance(1, 5) || !s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') {
        quoted(d, s)
    } else {
        s.to_string()
    }
}
fn list(d: &mut D, v: &[String]) -> String {
    let sep = *d.pick(&[", ", ",", ",\n    "]);
    let v: Vec<String> = v.iter().map(|x| quoted(d, x)).collect();
    format!("[{}{}]", v.join(sep), if !v.is_empty() && d.chance(1, 4) { "," } else { "" })
}
/// A table of keys with their values already written.
type Table = Vec<(String, String)>;
#[derive(Default)]
struct Toml {
    top: Table,
    tables: Vec<(String, Table)>,
}
impl Toml {
    fn table(&mut self, name: &str, t: Table) {
        self.tables.push((name.to_string(), t));
    }
    /// In any order and form.
    fn write(mut self, d: &mut D) -> String {
        fn put(d: &mut D, o: &mut String, k: &str, v: &str) {
            let eq = *d.pick(&[" = ", "=", "  =  "]);
            o.push_str(&format!("{k}{eq}{v}"));
            if d.chance(1, 10) {
                o.push_str(" # \"note\" = 1");
            }
            o.push('\n');
            if d.chance(1, 10) {
                o.push_str("\n# a note\n");
            }
        }
        let mut o = String::new();
        let mut inline = Vec::new();
        let names: Vec<String> = self.tables.iter().map(|t| t.0.clone()).collect();
        for (name, mut t) in std::mem::take(&mut self.tables) {
            d.shuffle(&mut t);
            if t.is_empty() && !name.contains('.') && d.bool() {
                continue;
            }
            let part = format!("{name}.");
            let alone = !name.contains('.') && !names.iter().any(|n| n.starts_with(&part));
            if alone && d.chance(1, 6) && !t.iter().any(|x| x.1.contains('\n')) {
                inline.push((name, format!("{{ {} }}", t.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", "))));
            } else {
                self.tables.push((name, t));
            }
        }
        d.shuffle(&mut self.top);
        for (k, v) in &self.top {
            put(d, &mut o, k, v);
        }
        for (n, v) in &inline {
            put(d, &mut o, n, v);
        }
        d.shuffle(&mut self.tables);
        for (n, t) in &self.tables {
            o.push_str(&format!("[{n}]\n"));
            for (k, v) in t {
                put(d, &mut o, k, v);
            }
        }
        o
    }
}

// ---- project.toml ----

#[derive(Debug, Clone, Default)]
struct Launch {
    extends: Option<String>,
    workshop: Vec<String>,
    /// spelling, parameter
    dlc: Vec<(String, &'static str)>,
    presets: Vec<String>,
    optionals: Vec<String>,
    mission: Option<String>,
    parameters: Vec<String>,
    executable: Option<String>,
    binarize: Option<bool>,
    file_patching: Option<bool>,
    instances: Option<u8>,
    rapify: Option<bool>,
}
#[derive(Debug, Clone)]
enum LintFile {
    Enabled(bool),
    Severity(&'static str),
    Full(Option<bool>, Option<&'static str>, Vec<(String, i64)>),
}
#[derive(Debug, Clone)]
enum VersionFile {
    Default,
    Path(String),
    Numbers(u32, u32, u32, Option<u32>),
}
#[derive(Debug, Clone)]
struct Project {
    name: String,
    prefix: String,
    mainprefix: Option<String>,
    version: VersionFile,
    git_hash: Option<u8>,
    properties: BTreeMap<String, String>,
    include: Vec<String>,
    exclude: Vec<String>,
    lints: [BTreeMap<String, LintFile>; 3],
    check_pdrive: Option<(String, PDriveOption)>,
    dev_exclude: Vec<String>,
    launch: BTreeMap<String, Launch>,
    optional_mod_folders: Option<bool>,
    build_pdrive: Option<(String, PDriveOption)>,
    folder: Option<String>,
    sign: Option<bool>,
    archive: Option<bool>,
    sign_version: Option<u8>,
    authority: Option<String>,
}

const DLCS: &[(&str, &[&str])] = &[
    ("contact", &["contact", "1021790"]),
    ("gm", &["gm", "1042220", "global mobilization", "Creator DLC: Global Mobilization - Cold War Germany"]),
    ("vn", &["vn", "1227700", "sog", "prairie fire", "Creator DLC: S.O.G. Prairie Fire"]),
    ("csla", &["csla", "1294440", "iron curtain", "Creator DLC: CSLA Iron Curtain"]),
    ("ws", &["ws", "1681170", "western sahara", "Creator DLC: Western Sahara"]),
    ("spe", &["spe", "1175380", "spearhead", "Creator DLC: Spearhead 1944"]),
    ("rf", &["rf", "2647760", "Creator DLC: Reaction Forces"]),
    ("ef", &["ef", "2647830", "Creator DLC: Expeditionary Forces"]),
];
const SEVERITIES: &[(&str, Severity)] = &[("Help", Severity::Help), ("Note", Severity::Note), ("Warning", Severity::Warning), ("Error", Severity::Error), ("Bug", Severity::Bug)];

fn any_case(d: &mut D, s: &str) -> String {
    s.chars().map(|c| if d.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn word(d: &mut D) -> String {
    d.string_of(&['a', 'b', 'C', '_', '1', 'é', ' ', '\\', '/', '*', '.', '"', '=', '#', '['], 0, 6)
}
fn name(d: &mut D) -> String {
    d.string_of(&['a', 'b', 'c', '_', 'Z'], 1, 3)
}
fn words(d: &mut D) -> Vec<String> {
    d.vec(3, |d| if d.bool() { name(d) } else { word(d) })
}
fn maybe<T>(d: &mut D, f: impl FnOnce(&mut D) -> T) -> Option<T> {
    if d.bool() {
        Some(f(d))
    } else {
        None
    }
}
fn pdrive(d: &mut D) -> (String, PDriveOption) {
    let (s, o) = *d.pick(&[("disallow", PDriveOption::Disallow), ("ignore", PDriveOption::Ignore), ("require", PDriveOption::Require)]);
    (if d.bool() { s.to_string() } else { any_case(d, s) }, o)
}
fn launch(d: &mut D) -> Launch {
    Launch {
        extends: None,
        workshop: words(d),
        dlc: d.vec(3, |d| {
            let (p, s) = *d.pick(DLCS);
            let s = *d.pick(s);
            (if d.bool() { s.to_string() } else { any_case(d, s) }, p)
        }),
        presets: words(d),
        optionals: words(d),
        mission: maybe(d, word),
        parameters: words(d),
        executable: maybe(d, |d| (*d.pick(&["arma3server_x64", "arma3.exe", "a.b", "x.EXE", "dir/arma3"])).to_string()),
        binarize: maybe(d, D::bool),
        file_patching: maybe(d, D::bool),
        instances: maybe(d, D::u8),
        rapify: maybe(d, D::bool),
    }
}
fn lint_file(d: &mut D) -> LintFile {
    match d.below(3) {
        0 => LintFile::Enabled(d.bool()),
        1 => LintFile::Severity(d.pick(SEVERITIES).0),
        _ => LintFile::Full(maybe(d, D::bool), maybe(d, |d| d.pick(SEVERITIES).0), {
            let mut seen = HashSet::new();
            d.vec(2, |d| (name(d), d.i64(-5, 5))).into_iter().filter(|x| seen.insert(x.0.clone())).collect()
        }),
    }
}
fn number(d: &mut D) -> u32 {
    match d.below(4) {
        0 => *d.pick(&[0, u32::MAX, 2_147_483_648, 1_000_000]),
        _ => d.below(30) as u32,
    }
}
fn project(d: &mut D) -> Project {
    let mut launches = BTreeMap::new();
    if d.chance(2, 3) {
        let names = ["default", "a", "b", "c-d", "éé"];
        let n = d.usize(1, 5);
        let names = &names[..n];
        for x in names {
            launches.insert((*x).to_string(), launch(d));
        }
        // chains that end
        let mut order: Vec<&str> = names.to_vec();
        d.shuffle(&mut order);
        for i in 1..order.len() {
            if d.chance(2, 3) {
                let j = d.usize(0, i - 1);
                launches.get_mut(order[i]).expect("there").extends = Some(order[j].to_string());
            }
        }
    }
    Project {
        name: word(d),
        prefix: name(d),
        mainprefix: maybe(d, word),
        version: match d.below(3) {
            0 => VersionFile::Default,
            1 => VersionFile::Path((*d.pick(&["addons/common/script_version.hpp", "version.hpp", "addons\\main\\v.hpp"])).to_string()),
            _ => VersionFile::Numbers(number(d), number(d), number(d), maybe(d, number)),
        },
        git_hash: maybe(d, D::u8),
        properties: d.vec(3, |d| (word(d), word(d))).into_iter().collect(),
        include: d.vec(4, |d| match d.below(3) {
            0 => (*d.pick(&["mod.cpp", "/mod.cpp", "LICENSE", "/logo_co.paa", "*.txt", "a/**/*.dll"])).to_string(),
            1 => format!("/{}", name(d)),
            _ => name(d),
        }),
        exclude: words(d),
        lints: std::array::from_fn(|_| if d.bool() { d.vec(3, |d| (name(d), lint_file(d))).into_iter().collect() } else { BTreeMap::new() }),
        check_pdrive: maybe(d, pdrive),
        dev_exclude: words(d),
        launch: launches,
        optional_mod_folders: maybe(d, D::bool),
        build_pdrive: maybe(d, pdrive),
        folder: maybe(d, word),
        sign: maybe(d, D::bool),
        archive: maybe(d, D::bool),
        sign_version: maybe(d, |d| *d.pick(&[2, 3])),
        authority: maybe(d, word),
    }
}

/// What is written in a file other than project.toml, if anything.
#[derive(Default)]
struct Written {
    project: String,
    launch: Option<String>,
    lints: Option<String>,
}
fn put<T: ToString>(t: &mut Table, k: &str, v: &Option<T>) {
    if let Some(v) = v {
        t.push((k.to_string(), v.to_string()));
    }
}
fn put_text(d: &mut D, t: &mut Table, k: &str, v: &Option<String>) {
    if let Some(v) = v {
        let q = quoted(d, v);
        t.push((k.to_string(), q));
    }
}
fn put_list(d: &mut D, t: &mut Table, k: &str, v: &[String]) {
    if !v.is_empty() || d.chance(1, 4) {
        let l = list(d, v);
        t.push((k.to_string(), l));
    }
}
fn launch_table(d: &mut D, l: &Launch) -> Table {
    let mut t = Table::new();
    put_text(d, &mut t, "extends", &l.extends);
    put_list(d, &mut t, "workshop", &l.workshop);
    put_list(d, &mut t, "dlc", &l.dlc.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    put_list(d, &mut t, "presets", &l.presets);
    put_list(d, &mut t, "optionals", &l.optionals);
    put_text(d, &mut t, "mission", &l.mission);
    put_list(d, &mut t, "parameters", &l.parameters);
    put_text(d, &mut t, "executable", &l.executable);
    put(&mut t, "binarize", &l.binarize);
    put(&mut t, "file_patching", &l.file_patching);
    put(&mut t, "instances", &l.instances);
    put(&mut t, "rapify", &l.rapify);
    t
}
fn write(d: &mut D, p: &Project) -> Written {
    let mut w = Written::default();
    let mut o = Toml::default();
    let q = quoted(d, &p.name);
    o.top.push(("name".into(), q));
    let q = quoted(d, &p.prefix);
    o.top.push(("prefix".into(), q));
    put_text(d, &mut o.top, "mainprefix", &p.mainprefix);
    let mut t = Table::new();
    match &p.version {
        VersionFile::Default => (),
        VersionFile::Path(x) => put_text(d, &mut t, "path", &Some(x.clone())),
        VersionFile::Numbers(a, b, c, e) => {
            put(&mut t, "major", &Some(a));
            put(&mut t, "minor", &Some(b));
            put(&mut t, "patch", &Some(c));
            put(&mut t, "build", e);
        }
    }
    put(&mut t, "git_hash", &p.git_hash);
    o.table("version", t);
    let mut t = Table::new();
    for (k, v) in &p.properties {
        let (k, v) = (key(d, k), quoted(d, v));
        t.push((k, v));
    }
    o.table("properties", t);
    let mut t = Table::new();
    put_list(d, &mut t, "include", &p.include);
    put_list(d, &mut t, "exclude", &p.exclude);
    o.table("files", t);
    // lints
    let any = p.lints.iter().any(|l| !l.is_empty());
    let apart = any && d.bool();
    let mut lints = Toml::default();
    for (what, l) in ["config", "sqf", "stringtables"].iter().zip(&p.lints) {
        if l.is_empty() {
            continue;
        }
        let at = |n: &str| if apart { n.to_string() } else { format!("lints.{n}") };
        let mut t = Table::new();
        for (k, v) in l {
            let k = key(d, k);
            match v {
                LintFile::Enabled(b) => t.push((k, b.to_string())),
                LintFile::Severity(s) => {
                    let s = quoted(d, s);
                    t.push((k, s));
                }
                LintFile::Full(e, s, opts) => {
                    let mut u = Table::new();
                    put(&mut u, "enabled", e);
                    put_text(d, &mut u, "severity", &s.map(str::to_string));
                    let form = d.below(3);
                    if !opts.is_empty() {
                        if form == 0 {
                            for (k, v) in opts {
                                u.push((format!("options.{k}"), v.to_string()));
                            }
                        } else {
                            u.push(("options".into(), format!("{{ {} }}", opts.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", "))));
                        }
                    }
                    if form == 1 {
                        t.push((k, format!("{{ {} }}", u.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", "))));
                    } else {
                        lints.table(&at(&format!("{what}.{k}")), u);
                    }
                }
            }
        }
        lints.table(&at(what), t);
    }
    if apart {
        w.lints = Some(lints.write(d));
    } else {
        o.tables.extend(lints.tables);
    }
    let mut t = Table::new();
    put_text(d, &mut t, "pdrive", &p.check_pdrive.as_ref().map(|x| x.0.clone()));
    o.table("hemtt.check", t);
    let mut t = Table::new();
    put_list(d, &mut t, "exclude", &p.dev_exclude);
    o.table("hemtt.dev", t);
    let mut t = Table::new();
    put(&mut t, "optional_mod_folders", &p.optional_mod_folders);
    put_text(d, &mut t, "pdrive", &p.build_pdrive.as_ref().map(|x| x.0.clone()));
    o.table("hemtt.build", t);
    let mut t = Table::new();
    put_text(d, &mut t, "folder", &p.folder);
    put(&mut t, "sign", &p.sign);
    put(&mut t, "archive", &p.archive);
    o.table("hemtt.release", t);
    let apart = !p.launch.is_empty() && d.bool();
    let mut l = Toml::default();
    for (k, v) in &p.launch {
        let t = launch_table(d, v);
        if apart {
            let k = key(d, k);
            // an empty table is a configuration too
            l.table(&k, t);
        } else if k == "default" && d.chance(1, 3) {
            o.table("hemtt.launch", t);
        } else {
            let k = key(d, k);
            o.table(&format!("hemtt.launch.{k}"), t);
        }
    }
    if apart {
        let mut s = String::new();
        d.shuffle(&mut l.tables);
        for (k, t) in &l.tables {
            s.push_str(&format!("[{k}]\n"));
            for (k, v) in t {
                s.push_str(&format!("{k} = {v}\n"));
            }
        }
        w.launch = Some(s);
    } else {
        // the same here: empty tables must not be left out
        for t in &mut o.tables {
            if t.0.starts_with("hemtt.launch") && t.1.is_empty() {
                t.1.push(("workshop".into(), "[]".into()));
            }
        }
    }
    let mut t = Table::new();
    put(&mut t, "version", &p.sign_version);
    put_text(d, &mut t, "authority", &p.authority);
    o.table("signing", t);
    w.project = o.write(d);
    w
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    ensure!(got == want, what, "{what}: {got:?} instead of {want:?}");
    Ok(())
}
fn lint_matches(what: &str, got: &HashMap<String, LintConfigOverride>, want: &BTreeMap<String, LintFile>) -> R {
    same(what, got.keys().cloned().collect::<BTreeSet<_>>(), want.keys().cloned().collect())?;
    for (k, v) in want {
        let g = &got[k];
        let (e, s, o) = match v {
            LintFile::Enabled(b) => (Some(*b), None, vec![]),
            LintFile::Severity(s) => (None, Some(*s), vec![]),
            LintFile::Full(e, s, o) => (*e, *s, o.clone()),
        };
        same(&format!("{what} enabled"), g.enabled(), e)?;
        same(&format!("{what} severity"), g.severity(), s.map(|s| SEVERITIES.iter().find(|x| x.0 == s).expect("known").1))?;
        for (k, v) in o {
            same(&format!("{what} option"), g.option(&k).and_then(toml::Value::as_integer), Some(v))?;
        }
    }
    Ok(())
}
fn union<T: Ord + Clone>(l: &BTreeMap<String, Launch>, chain: &[String], f: impl Fn(&Launch) -> Vec<T>) -> Vec<T> {
    let s: BTreeSet<T> = chain.iter().flat_map(|c| f(&l[c])).collect();
    s.into_iter().collect()
}
fn launch_matches(got: &LaunchOptions, l: &BTreeMap<String, Launch>, k: &str) -> R {
    let mut chain = vec![k.to_string()];
    while let Some(e) = &l[chain.last().expect("not empty")].extends {
        chain.push(e.clone());
    }
    fn nearest<T>(l: &BTreeMap<String, Launch>, chain: &[String], f: impl Fn(&Launch) -> Option<T>) -> Option<T> {
        chain.iter().find_map(|c| f(&l[c]))
    }
    let sorted = |v: &[String]| v.iter().cloned().collect::<Vec<_>>();
    same("workshop", sorted(got.workshop()), union(l, &chain, |x| x.workshop.clone()))?;
    same("presets", sorted(got.presets()), union(l, &chain, |x| x.presets.clone()))?;
    same("optionals", sorted(got.optionals()), union(l, &chain, |x| x.optionals.clone()))?;
    same("parameters", sorted(got.parameters()), union(l, &chain, |x| x.parameters.clone()))?;
    let mut mods: Vec<&str> = got.dlc().iter().map(|x| x.to_mod()).collect();
    mods.sort_unstable();
    same("dlc", mods, union(l, &chain, |x| x.dlc.iter().map(|y| y.1).collect()))?;
    for x in got.dlc() {
        let known = DLCS.iter().find(|y| y.0 == x.to_mod()).expect("known");
        ensure!(known.1.contains(&x.to_appid()), "appid", "{} has the app id {}", x.to_mod(), x.to_appid());
        let shown = x.to_string();
        ensure!(known.1.iter().any(|n| n.eq_ignore_ascii_case(&shown)), "dlc name", "{} is shown as {shown}", x.to_mod());
    }
    same("mission", got.mission().cloned(), nearest(l, &chain, |x| x.mission.clone()))?;
    let exe = nearest(l, &chain, |x| x.executable.clone()).unwrap_or_else(|| "arma3_x64".into());
    let exe = if exe.to_lowercase().ends_with(".exe") { exe } else { exe + ".exe" };
    same("executable", got.executable(), exe)?;
    same("binarize", got.binarize(), nearest(l, &chain, |x| x.binarize).unwrap_or(false))?;
    same("file_patching", got.file_patching(), nearest(l, &chain, |x| x.file_patching).unwrap_or(true))?;
    same("instances", got.instances(), nearest(l, &chain, |x| x.instances).unwrap_or(1))?;
    same("rapify", got.rapify(), nearest(l, &chain, |x| x.rapify).unwrap_or(true))
}

fn reads(d: &mut D, c: &mut Case) -> R {
    let p = project(d);
    let w = write(d, &p);
    c.input(&format!("{}\n--- launch.toml\n{}\n--- lints.toml\n{}", w.project, w.launch.as_deref().unwrap_or("-"), w.lints.as_deref().unwrap_or("-")));
    c.nontrivial(w.project.lines().count() > 6);
    c.note_if(w.launch.is_some(), "launch.toml");
    c.note_if(w.lints.is_some(), "lints.toml");
    c.note_if(p.launch.values().any(|l| l.extends.is_some()), "launch extends");
    let dir = Folder::new();
    let path = dir.put("project.toml", &w.project);
    if let Some(l) = &w.launch {
        dir.put("launch.toml", l);
    }
    if let Some(l) = &w.lints {
        dir.put("lints.toml", l);
    }
    let got = ProjectConfig::from_file(&path).map_err(|e| Fail::new("rejected", e.to_string()))?;
    same("name", got.name(), &p.name)?;
    same("prefix", got.prefix(), &p.prefix)?;
    same("mainprefix", got.mainprefix(), p.mainprefix.as_ref())?;
    same("properties", got.properties().clone().into_iter().collect::<BTreeMap<_, _>>(), p.properties.clone())?;
    let mut include: BTreeSet<String> = p.include.iter().map(|i| format!("/{}", i.strip_prefix('/').unwrap_or(i))).collect();
    include.extend(["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"].map(String::from));
    same("include", got.files().include().to_vec(), include.into_iter().collect())?;
    same("exclude", got.files().exclude().to_vec(), p.exclude.clone())?;
    lint_matches("config lints", got.lints().config(), &p.lints[0])?;
    lint_matches("sqf lints", got.lints().sqf(), &p.lints[1])?;
    lint_matches("stringtable lints", got.lints().stringtables(), &p.lints[2])?;
    let h = got.hemtt();
    same("check.pdrive", *h.check().pdrive(), p.check_pdrive.as_ref().map_or(PDriveOption::Ignore, |x| x.1))?;
    same("build.pdrive", *h.build().pdrive(), p.build_pdrive.as_ref().map_or(PDriveOption::Ignore, |x| x.1))?;
    same("dev.exclude", h.dev().exclude().to_vec(), p.dev_exclude.clone())?;
    same("optional_mod_folders", h.build().optional_mod_folders(), p.optional_mod_folders.unwrap_or(true))?;
    same("folder", h.release().folder(), p.folder.as_ref().unwrap_or(&p.prefix))?;
    same("sign", h.release().sign(), p.sign.unwrap_or(true))?;
    same("archive", h.release().archive(), p.archive.unwrap_or(true))?;
    same("signing version", got.signing().version() == BISignVersion::V2, p.sign_version == Some(2))?;
    same("authority", got.signing().authority(), p.authority.as_ref())?;
    same("launch", h.launch().keys().cloned().collect::<BTreeSet<_>>(), p.launch.keys().cloned().collect())?;
    for (k, l) in h.launch() {
        launch_matches(l, &p.launch, k)?;
    }
    // one over another
    if h.launch().len() > 1 {
        let mut names: Vec<&String> = h.launch().keys().collect();
        names.sort();
        let (a, b) = (names[0].clone(), names[1].clone());
        let o = h.launch()[&a].clone().overlay(h.launch()[&b].clone());
        let both = |f: fn(&LaunchOptions) -> &[String]| f(&h.launch()[&a]).iter().chain(f(&h.launch()[&b])).cloned().collect::<Vec<_>>();
        same("overlay workshop", o.workshop().to_vec(), both(LaunchOptions::workshop))?;
        same("overlay presets", o.presets().to_vec(), both(LaunchOptions::presets))?;
        same("overlay optionals", o.optionals().to_vec(), both(LaunchOptions::optionals))?;
        same("overlay parameters", o.parameters().to_vec(), both(LaunchOptions::parameters))?;
        same("overlay dlc", o.dlc().len(), h.launch()[&a].dlc().len() + h.launch()[&b].dlc().len())?;
        // the values of the second, where it or what it extends sets them
        let chain = |k: &str| {
            let mut v = vec![k.to_string()];
            while let Some(e) = &p.launch[v.last().expect("not empty")].extends {
                v.push(e.clone());
            }
            v
        };
        let order: Vec<String> = chain(&b).into_iter().chain(chain(&a)).collect();
        let first = |f: &dyn Fn(&Launch) -> Option<String>| order.iter().find_map(|k| f(&p.launch[k]));
        same("overlay mission", o.mission().cloned(), first(&|l| l.mission.clone()))?;
        let exe = first(&|l| l.executable.clone()).unwrap_or_else(|| "arma3_x64".into());
        same("overlay executable", o.executable(), if exe.to_lowercase().ends_with(".exe") { exe } else { exe + ".exe" })?;
        same("overlay binarize", o.binarize().to_string(), first(&|l| l.binarize.map(|x| x.to_string())).unwrap_or_else(|| "false".into()))?;
        same("overlay file_patching", o.file_patching().to_string(), first(&|l| l.file_patching.map(|x| x.to_string())).unwrap_or_else(|| "true".into()))?;
        same("overlay instances", o.instances().to_string(), first(&|l| l.instances.map(|x| x.to_string())).unwrap_or_else(|| "1".into()))?;
        same("overlay rapify", o.rapify().to_string(), first(&|l| l.rapify.map(|x| x.to_string())).unwrap_or_else(|| "true".into()))?;
    }
    version_of(d, &got, &p)
}
/// The version the project has.
fn version_of(d: &mut D, got: &ProjectConfig, p: &Project) -> R {
    let vfs: vfs::VfsPath = vfs::MemoryFS::new().into();
    let mut script = None;
    let path = match &p.version {
        VersionFile::Path(x) => x.replace('\\', "/"),
        _ => "addons/main/script_version.hpp".into(),
    };
    if d.chance(3, 4) {
        let n = (number(d), number(d), number(d), maybe(d, number));
        let f = vfs.join(&path).expect("path");
        f.parent().create_dir_all().expect("folder");
        use std::io::Write;
        let text = script_version(d, n);
        f.create_file().expect("create").write_all(text.as_bytes()).expect("write");
        script = Some(n);
    }
    let want = match p.version {
        VersionFile::Numbers(a, b, c, e) => Some((a, b, c, e)),
        _ => script,
    };
    got.version().invalidate();
    same("git hash", got.version().git_hash(), Some(p.git_hash.unwrap_or(8)).filter(|x| *x > 0))?;
    let v = got.version().get(&vfs);
    got.version().invalidate();
    match (want, v) {
        // there is no repository here
        (Some(_), Err(e)) => ensure!(p.git_hash != Some(0), "version", "{e}"),
        (None, r) => ensure!(r.is_err(), "version", "{:?} without a source", r.map(|v| v.to_string())),
        (Some((a, b, c, e)), Ok(v)) => {
            ensure!(p.git_hash == Some(0), "git hash", "{v} without a repository");
            same("version", (v.major(), v.minor(), v.patch(), v.build()), (a, b, c, e))?;
        }
    }
    Ok(())
}

/// A project in a repository.
fn git_hash(d: &mut D, c: &mut Case) -> R {
    let dir = Folder::new();
    let git = |args: &[&str]| {
        std::process::Command::new("git").args(args).current_dir(&dir.0).env("GIT_CONFIG_GLOBAL", "/dev/null").env("GIT_CONFIG_NOSYSTEM", "1").output().ok().filter(|o| o.status.success()).map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string())
    };
    let len = *d.pick(&[0u8, 1, 4, 8, 39, 40, 41, 255]);
    let text = d.string_of(&['a', 'b', 'c'], 1, 8);
    c.input(&format!("git_hash = {len} {text}"));
    let path = dir.put("project.toml", &format!("name = \"x\"\nprefix = \"x\"\n[version]\nmajor=1\nminor=2\npatch=3\ngit_hash = {len}\n"));
    if git(&["init", "-q"]).is_none() {
        c.note("no git");
        return Ok(());
    }
    git(&["-c", "user.name=a", "-c", "user.email=a@b", "commit", "-q", "--allow-empty", "-m", &text]).ok_or_else(|| Fail::new("git", "no commit"))?;
    let id = git(&["rev-parse", "HEAD"]).ok_or_else(|| Fail::new("git", "no id"))?;
    c.nontrivial(true);
    let p = ProjectConfig::from_file(&path).map_err(|e| Fail::new("rejected", e.to_string()))?;
    let back = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(&dir.0).expect("cd");
    p.version().invalidate();
    let v = p.version().get(&vfs::MemoryFS::new().into());
    // it does not change while the program runs
    let again = p.version().get(&vfs::MemoryFS::new().into());
    p.version().invalidate();
    std::env::set_current_dir(back).expect("cd back");
    let v = v.map_err(|e| Fail::new("version", e.to_string()))?;
    ensure!(again.is_ok_and(|x| x == v), "another version", "{v}");
    let want = if len == 0 { "1.2.3".to_string() } else { format!("1.2.3-{}", &id[..usize::from(len).min(40)]) };
    same("version", v.to_string(), want)
}

/// A project with exactly one mistake is refused.
fn mistakes(d: &mut D, c: &mut Case) -> R {
    let mut p = project(d);
    for l in p.launch.values_mut() {
        l.extends = None;
    }
    let kind = d.below(16);
    let chain = |p: &mut Project, d: &mut D, list: &[(&str, &str)]| {
        for (a, b) in list {
            let mut l = launch(d);
            l.extends = Some((*b).to_string());
            p.launch.insert((*a).to_string(), l);
        }
    };
    match kind {
        0 => p.prefix = String::new(),
        1 => {
            p.launch.remove("lost");
            chain(&mut p, d, &[("a", "lost")]);
        }
        2 => {
            let n = d.usize(1, 4);
            let names = ["n0", "n1", "n2", "n3"];
            for i in 0..n {
                chain(&mut p, d, &[(names[i], names[(i + 1) % n])]);
            }
            // and others that lead to it
            if d.bool() {
                chain(&mut p, d, &[("lead", names[0])]);
            }
            if d.bool() {
                chain(&mut p, d, &[("aa", "lead2"), ("lead2", names[n - 1])]);
            }
            c.note("circle");
        }
        _ => (),
    }
    let mut w = write(d, &p);
    // an insertion point that is certainly in the table of the given name
    let table = |t: &mut String, name: &str, line: &str| {
        let head = format!("[{name}]\n");
        if let Some(i) = t.find(&head) {
            t.insert_str(i + head.len(), &format!("{line}\n"));
        } else {
            t.push_str(&format!("\n[{name}]\n{line}\n"));
        }
    };
    match kind {
        0..=2 => (),
        3 => w.project = w.project.lines().filter(|l| !l.trim_start().starts_with("name")).map(|l| format!("{l}\n")).collect(),
        4 => w.project = w.project.lines().filter(|l| !l.trim_start().starts_with("prefix")).map(|l| format!("{l}\n")).collect(),
        5 => {
            // exactly one of the three, or two
            let lines = *d.pick(&["major = 1", "minor = 2", "patch = 3", "major = 1\nminor = 2", "major=1\npatch = 1", "minor=1\npatch=1", "path = \"a.hpp\"\nmajor = 1\nminor = 2\npatch = 3", "path = \"a.hpp\"\nminor = 1"]);
            p.version = VersionFile::Default;
            p.git_hash = None;
            w = write(d, &p);
            w.project = w.project.replace("version={  }", "").replace("version = {  }", "").replace("version  =  {  }", "");
            table(&mut w.project, "version", lines);
        }
        6 => {
            // settings in both places
            p.launch.insert("default".into(), launch(d));
            for _ in 0..20 {
                w = write(d, &p);
                if w.launch.is_none() {
                    break;
                }
            }
            if w.launch.is_some() {
                return Ok(());
            }
            w.launch = Some("[other]\nworkshop = []\n".into());
            c.note("launch in both");
        }
        7 => {
            let i = d.usize(0, 2);
            for (j, l) in p.lints.iter_mut().enumerate() {
                if j != i && d.bool() {
                    l.clear();
                }
            }
            p.lints[i].insert("x".into(), lint_file(d));
            for _ in 0..20 {
                w = write(d, &p);
                if w.lints.is_none() {
                    break;
                }
            }
            if w.lints.is_some() {
                return Ok(());
            }
            w.lints = Some("[sqf]\nother = false\n".into());
            c.note("lints in both");
        }
        8 => {
            p.launch.clear();
            w = write(d, &p);
            w.launch = Some("[hemtt.launch.default]\nworkshop = []\n".into());
        }
        9 => {
            p.lints = std::array::from_fn(|_| BTreeMap::new());
            w = write(d, &p);
            w.lints = Some(format!("[lints.{}]\nx = false\n", d.pick(&["sqf", "config", "stringtables"])));
        }
        10 => {
            p.build_pdrive = Some((d.pick(&["required", "allow", "", "none"]).to_string(), PDriveOption::Ignore));
            w = write(d, &p);
        }
        11 => {
            p.sign_version = Some(*d.pick(&[0, 1, 4, 255]));
            w = write(d, &p);
        }
        12 => {
            let mut l = launch(d);
            l.dlc.push((d.pick(&["nope", "", "gm2", "arma3"]).to_string(), ""));
            p.launch.insert("default".into(), l);
            w = write(d, &p);
        }
        13 => {
            // a value of another type
            let mut t = Table::new();
            let (k, v) = *d.pick(&[("instances", "300"), ("instances", "-1"), ("instances", "\"1\""), ("binarize", "1"), ("workshop", "\"a\""), ("workshop", "[1]"), ("mission", "true"), ("rapify", "\"yes\""), ("file_patching", "0"), ("extends", "1"), ("executable", "[]"), ("parameters", "{}")]);
            t.push((k.into(), v.into()));
            p.launch.clear();
            w = write(d, &p);
            w.launch = Some(format!("[x]\n{k} = {v}\n"));
            let _ = t;
        }
        14 => {
            let line = *d.pick(&["x = 1", "x = \"warn\"", "x = \"warning\"", "x = { severity = \"Fatal\" }", "x = { enabled = \"no\" }", "x = []", "x = { options = 3 }"]);
            p.lints = std::array::from_fn(|_| BTreeMap::new());
            w = write(d, &p);
            w.lints = Some(format!("[{}]\n{line}\n", d.pick(&["sqf", "config", "stringtables"])));
        }
        _ => {
            // not TOML
            let tail = *d.pick(&["\n[\n", "\n= 1\n", "\n[a.b\n", "\nk = \n", "\nname = \"again\"\nname = \"twice\"\n", "\nk = \"open\n"]);
            w.project.push_str(tail);
        }
    }
    c.note(format!("kind {kind}"));
    c.input(&format!("{}\n--- launch.toml\n{}\n--- lints.toml\n{}", w.project, w.launch.as_deref().unwrap_or("-"), w.lints.as_deref().unwrap_or("-")));
    c.nontrivial(true);
    // settings that were written inline under another form
    if (3..=4).contains(&kind) && ["name", "prefix"].iter().all(|k| w.project.lines().any(|l| l.trim_start().starts_with(k))) {
        return Ok(());
    }
    let dir = Folder::new();
    let path = dir.put("project.toml", &w.project);
    if let Some(l) = &w.launch {
        dir.put("launch.toml", l);
    }
    if let Some(l) = &w.lints {
        dir.put("lints.toml", l);
    }
    if let Ok(got) = ProjectConfig::from_file(&path) {
        fail!(format!("accepted {kind}"), "a project with a mistake of kind {kind} is accepted: {got:?}");
    }
    Ok(())
}

fn addon(d: &mut D, c: &mut Case) -> R {
    let (rapify, rapify_exclude) = (maybe(d, D::bool), words(d));
    let (binarize, binarize_exclude, no_bin) = (maybe(d, D::bool), words(d), words(d));
    let (files, old) = (words(d), words(d));
    let properties: BTreeMap<String, String> = d.vec(3, |d| (word(d), word(d))).into_iter().collect();
    let mut o = Toml::default();
    put_list(d, &mut o.top, "no_bin", &no_bin);
    put_list(d, &mut o.top, "exclude", &old);
    let mut t = Table::new();
    put(&mut t, "enabled", &rapify);
    put_list(d, &mut t, "exclude", &rapify_exclude);
    // the old name
    let old_name = d.chance(1, 4);
    o.table(if old_name { "preprocess" } else { "rapify" }, t);
    let mut t = Table::new();
    put(&mut t, "enabled", &binarize);
    put_list(d, &mut t, "exclude", &binarize_exclude);
    o.table("binarize", t);
    let mut t = Table::new();
    for (k, v) in &properties {
        let (k, v) = (key(d, k), quoted(d, v));
        t.push((k, v));
    }
    o.table("properties", t);
    let mut t = Table::new();
    put_list(d, &mut t, "exclude", &files);
    o.table("files", t);
    let text = o.write(d);
    // the old name is only accepted as a table of its own
    let refused = text.contains("preprocess=") || text.contains("preprocess = ");
    c.input(&text);
    c.nontrivial(text.lines().count() > 2);
    let dir = Folder::new();
    let got = match AddonConfig::from_file(&dir.put("addon.toml", &text)) {
        Ok(_) if refused => fail!("accepted", "preprocess as a value"),
        Err(_) if refused => return Ok(()),
        Ok(g) => g,
        // written with other spacing, it is a table too
        Err(e) => fail!("rejected", "{e}"),
    };
    same("rapify", got.rapify().enabled(), rapify.unwrap_or(true))?;
    same("rapify.exclude", got.rapify().exclude(), &rapify_exclude)?;
    same("binarize", got.binarize().enabled(), binarize.unwrap_or(true))?;
    same("binarize.exclude", got.binarize().exclude().clone(), binarize_exclude.into_iter().chain(no_bin).collect())?;
    same("files.exclude", got.files().exclude().clone(), files.into_iter().chain(old).collect())?;
    same("properties", got.properties().clone().into_iter().collect(), properties)?;
    // a value of another type
    let (t, l) = *d.pick(&[("rapify", "enabled = 1"), ("rapify", "exclude = \"a\""), ("binarize", "enabled = \"no\""), ("binarize", "exclude = [1]"), ("files", "exclude = true"), ("properties", "a = 1")]);
    ensure!(AddonConfig::from_file(&dir.put("addon.toml", &format!("[{t}]\n{l}\n"))).is_err(), "accepted", "{l} in {t}");
    Ok(())
}

// ---- versions ----

type Numbers = (u32, u32, u32, Option<u32>);
fn script_version(d: &mut D, n: Numbers) -> String {
    let mut lines: Vec<String> = Vec::new();
    let mut define = |d: &mut D, k: &str, v: u32| {
        let gap = *d.pick(&[" ", " ", "  ", "     ", "\t", "\t\t"]);
        let hash = *d.pick(&["#define ", "#define ", "#define  ", "#define\t"]);
        let lead = *d.pick(&["", "", "  ", "\t"]);
        let tail = *d.pick(&["", "", " // note 7", "  ", "//9", " /* was 8 */", "/*7*/", "\t// a /* b */", " /* a // b */"]);
        lines.push(format!("{lead}{hash}{k}{gap}{v}{tail}"));
    };
    define(d, "MAJOR", n.0);
    define(d, "MINOR", n.1);
    let patch = *d.pick(&["PATCH", "PATCHLVL"]);
    define(d, patch, n.2);
    if let Some(b) = n.3 {
        define(d, "BUILD", b);
    }
    if d.bool() {
        d.shuffle(&mut lines);
    }
    for _ in 0..d.below(4) {
        let at = d.usize(0, lines.len());
        let extra = *d.pick(&["// #define MAJOR 77", "", "#define VERSION MAJOR.MINOR.PATCH.BUILD", "#define VERSION_AR MAJOR,MINOR,PATCH,BUILD", "#define MAJOR_VERSION 9", "#define MINOR_NAME 12", "#define BUILD_DATE 2024", "#undef MAJOR", "#include \"x.hpp\""]);
        // without a build number, what starts with its name may stand for it
        if n.3.is_some() || !extra.contains("BUILD_") {
            lines.insert(at, extra.to_string());
        }
    }
    let eol = *d.pick(&["\n", "\n", "\r\n"]);
    let mut s = lines.join(eol);
    if d.bool() {
        s.push_str(eol);
    }
    s
}
fn versions(d: &mut D, c: &mut Case) -> R {
    let make = |d: &mut D| {
        let n = (number(d), number(d), number(d), maybe(d, number));
        let hash = maybe(d, |d| d.string_of(&['0', '1', 'a', 'f', 'Z', '.', 'é'], 1, 8));
        let mut s = format!("{}.{}.{}", n.0, n.1, n.2);
        if let Some(b) = n.3 {
            s += &format!(".{b}");
        }
        if let Some(h) = &hash {
            s += &format!("-{h}");
        }
        (n, hash, s)
    };
    let (n, hash, s) = make(d);
    let (m, _, t) = if d.bool() {
        make(d)
    } else {
        // close to the first
        let mut m = n;
        match d.below(6) {
            0 => m.0 = m.0.wrapping_add(1),
            1 => m.1 = m.1.wrapping_add(1),
            2 => m.2 = m.2.wrapping_add(1),
            3 => m.3 = m.3.map(|b| b.wrapping_add(1)),
            4 => m.3 = if m.3.is_some() { None } else { Some(0) },
            _ => (),
        }
        let mut t = format!("{}.{}.{}", m.0, m.1, m.2);
        if let Some(b) = m.3 {
            t += &format!(".{b}");
        }
        (m, None, t)
    };
    c.input(&format!("{s} {t}"));
    c.nontrivial(n.3.is_some() || hash.is_some());
    let parse = |s: &str| Version::try_from(s).map_err(|e| Fail::new("rejected", format!("{s}: {e}")));
    let (v, w) = (parse(&s)?, parse(&t)?);
    same("numbers", (v.major(), v.minor(), v.patch(), v.build()), n)?;
    same("printed", v.to_string(), s.clone())?;
    let mut built = Version::new(n.0, n.1, n.2, n.3);
    if let Some(h) = &hash {
        built.set_build(h.as_str());
    }
    ensure!(built == v, "equal", "{built} is not {v}");
    // through a settings file
    #[derive(serde::Serialize, serde::Deserialize)]
    struct Holder {
        v: Version,
    }
    let text = toml::to_string(&Holder { v: v.clone() }).map_err(|e| Fail::new("serialize", e.to_string()))?;
    let back: Holder = toml::from_str(&text).map_err(|e| Fail::new("deserialize", e.to_string()))?;
    ensure!(back.v == v, "stored", "{} instead of {v}", back.v);
    let key = |n: Numbers| (n.0, n.1, n.2, n.3.map_or(-1, i64::from));
    same("order", v.partial_cmp(&w), Some(key(n).cmp(&key(m))))?;
    same("order", w.partial_cmp(&v), Some(key(m).cmp(&key(n))))?;
    // the game writes its versions as decimals
    let (whole, part) = (d.below(40) as u32, d.below(100) as u32);
    let decimal: f32 = format!("{whole}.{part:02}").parse().expect("decimal");
    let v = Version::from(decimal);
    same("decimal", (v.major(), v.minor(), v.patch(), v.build()), (whole, part, 0, None))?;
    // script version
    let script = script_version(d, n);
    c.input(&script);
    let v = Version::try_from_script_version(&script).map_err(|e| Fail::new("script rejected", format!("{e} in {script:?}")))?;
    same("script", (v.major(), v.minor(), v.patch(), v.build()), n)?;
    // one of the three is missing
    let k = *d.pick(&["MAJOR", "MINOR", "PATCH"]);
    let without: String = script.lines().filter(|l| !l.trim_start().strip_prefix("#define").is_some_and(|l| l.trim_start().starts_with(k))).map(|l| format!("{l}\n")).collect();
    ensure!(Version::try_from_script_version(&without).is_err(), "script accepted", "without {k}: {without:?}");
    Ok(())
}
fn bad_versions(d: &mut D, c: &mut Case) -> R {
    let s = match d.below(3) {
        0 => d.string_of(&['1', '2', '.', '.', '-', 'a', ' ', 'é'], 0, 10),
        1 => {
            let n = d.usize(0, 4);
            let mut v: Vec<String> = (0..n).map(|_| number(d).to_string()).collect();
            if n > 0 {
                let i = d.usize(0, n - 1);
                v[i] = (*d.pick(&["", "a", "4294967296", "-1", " 1", "1 ", "0x1", "1e3", "99999999999999999999", "1é", "１"])).to_string();
            }
            v.join(".")
        }
        _ => format!("{}.{}", number(d), number(d)),
    };
    c.input(&s);
    c.nontrivial(!s.is_empty());
    // numbers, numbers, numbers, maybe numbers, maybe a hash
    let front = s.split('-').next().unwrap_or("");
    let parts: Vec<&str> = front.split('.').collect();
    let ok = parts.len() >= 3 && parts.iter().take(4).all(|p| !p.is_empty() && p.chars().all(|c| c.is_ascii_digit()) && p.parse::<u32>().is_ok());
    if parts.len() > 4 {
        c.note("more than four numbers");
        let _ = Version::try_from(s.as_str());
        return Ok(());
    }
    let got = Version::try_from(s.as_str());
    ensure!(got.is_ok() == ok, "accepted", "{s:?} gives {got:?}");
    c.note(if ok { "valid" } else { "invalid" });
    Ok(())
}

// ---- prefix files ----

fn prefixes(d: &mut D, c: &mut Case) -> R {
    let keyed = d.bool();
    let (many, long) = if d.chance(1, 10) { (20, 60) } else { (5, 5) };
    let letters: &[char] = if keyed { &['z', 'a', 'M', '_', 'é', '1', ' ', '.', '=', '-'] } else { &['z', 'a', 'M', '_', 'é', '1', ' ', '.', '-', ';'] };
    let parts: Vec<String> = d.vec_between(1, many, |d| d.string_of(letters, 1, long).trim().to_string()).into_iter().filter(|s| !s.is_empty()).collect();
    if parts.is_empty() {
        return Ok(());
    }
    let path = parts.join("\\");
    let space = |d: &mut D| (*d.pick(&["", "", " ", "\t", "  "])).to_string();
    let eol = *d.pick(&["\n", "\r\n"]);
    let mut lines = Vec::new();
    if keyed {
        let most = if d.chance(1, 4) { 12 } else { 3 };
        for _ in 0..d.below(most) {
            lines.push((*d.pick(&["version=1.2", "product = a\\b", "prefixes=no", "myprefix = x", "a note", ""])).to_string());
        }
        let k = any_case(d, "prefix");
        let (a, b, e) = (space(d), space(d), space(d));
        let at = d.usize(0, lines.len());
        lines.insert(at, format!("{a}{k}{b}={e}{path}{}", space(d)));
        if d.bool() {
            lines.push("extra=prefix=other".into());
        }
    } else {
        lines.push(format!("{}{path}{}", space(d), space(d)));
    }
    let mut text = lines.join(eol);
    text.push_str(*d.pick(&["", "\n", "\r\n\r\n", " "]));
    c.input(&text);
    c.nontrivial(parts.len() > 1);
    c.note_if(keyed, "keys");
    let p = Prefix::new(&text).map_err(|e| Fail::new("rejected", e.to_string()))?;
    same("prefix", p.to_string(), path.clone())?;
    same("main prefix", p.main_prefix(), parts[0].as_str())?;
    same("mod prefix", p.mod_prefix(), parts.get(1).map(String::as_str))?;
    same("path", p.as_pathbuf(), parts.iter().collect::<PathBuf>())?;
    same("parts", p.into_inner(), parts.clone())?;
    // the forms that are refused
    let bad = match d.below(5) {
        0 => text.replace(&path, &format!("\\{path}")),
        1 => text.replace(&path, &format!("{path}/x")),
        2 => String::from("  \n\t\n"),
        3 => format!("a=b{eol}c=d"),
        _ => format!("prefix ={eol}x=y"),
    };
    ensure!(Prefix::new(&bad).is_err(), "accepted", "{bad:?} gives {:?}", Prefix::new(&bad));
    Ok(())
}

// ---- lints ----

const LINTS: &[&str] = &["l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7"];
#[derive(Debug, Clone)]
struct ModelLint {
    ident: &'static str,
    severity: Severity,
    enabled: bool,
    options: Vec<(String, i64)>,
    minimum: Option<Severity>,
    /// one runner for each: text or number
    runners: Vec<bool>,
}
struct Said(String);
impl Code for Said {
    fn ident(&self) -> &'static str {
        "X"
    }
    fn message(&self) -> String {
        self.0.clone()
    }
}
fn show(ident: &str, i: usize, config: &LintConfig, project: bool, target: &str, data: u32) -> String {
    let opts: Vec<String> = ["a", "b", "c", "Z", "_"].iter().filter_map(|k| config.option(k).map(|v| format!("{k}={v}"))).collect();
    format!("{ident}.{i} {:?} {} {opts:?} {project} {target} {data}", config.severity(), config.enabled())
}
struct Text(&'static str, usize);
impl LintRunner<u32> for Text {
    type Target = String;
    fn run(&self, project: Option<&ProjectConfig>, config: &LintConfig, _: Option<&Processed>, target: &String, data: &u32) -> Codes {
        vec![Arc::new(Said(show(self.0, self.1, config, project.is_some(), target, *data)))]
    }
}
struct Number(&'static str, usize);
impl LintRunner<u32> for Number {
    type Target = i32;
    fn run(&self, project: Option<&ProjectConfig>, config: &LintConfig, _: Option<&Processed>, target: &i32, data: &u32) -> Codes {
        vec![Arc::new(Said(show(self.0, self.1, config, project.is_some(), &target.to_string(), *data)))]
    }
}
struct Group;
impl LintGroupRunner<u32> for Group {
    type Target = String;
    fn run(&self, project: Option<&ProjectConfig>, config: HashMap<String, LintConfig>, _: Option<&Processed>, target: &String, data: &u32) -> Codes {
        let c: BTreeMap<_, _> = config.into_iter().collect();
        c.iter().map(|(k, v)| Arc::new(Said(show(k, 99, v, project.is_some(), target, *data))) as Arc<dyn Code>).collect()
    }
}
impl Lint<u32> for ModelLint {
    fn ident(&self) -> &'static str {
        self.ident
    }
    fn description(&self) -> &'static str {
        ""
    }
    fn documentation(&self) -> &'static str {
        ""
    }
    fn default_config(&self) -> LintConfig {
        let o = self.options.iter().map(|(k, v)| (k.clone(), toml::Value::Integer(*v))).collect();
        LintConfig::new(self.severity, o).with_enabled(self.enabled)
    }
    fn minimum_severity(&self) -> Severity {
        self.minimum.unwrap_or(self.severity)
    }
    fn runners(&self) -> Vec<Box<dyn AnyLintRunner<u32>>> {
        self.runners.iter().enumerate().map(|(i, t)| if *t { Box::new(Text(self.ident, i)) as Box<dyn AnyLintRunner<u32>> } else { Box::new(Number(self.ident, i)) }).collect()
    }
}
fn severity(d: &mut D) -> Severity {
    d.pick(SEVERITIES).1
}
fn options(d: &mut D) -> Vec<(String, i64)> {
    let mut seen = HashSet::new();
    d.vec(3, |d| ((*d.pick(&["a", "b", "c", "Z", "_"])).to_string(), d.i64(0, 9))).into_iter().filter(|x| seen.insert(x.0.clone())).collect()
}
fn lints(d: &mut D, c: &mut Case) -> R {
    let all: Vec<ModelLint> = d.vec_between(1, 6, |d| ModelLint {
        ident: *d.pick(LINTS),
        severity: severity(d),
        enabled: d.chance(3, 4),
        options: options(d),
        minimum: maybe(d, severity),
        runners: d.vec(3, D::bool),
    });
    let mut over: BTreeMap<&str, (Option<bool>, Option<Severity>, Vec<(String, i64)>)> = BTreeMap::new();
    let mut table = toml::value::Table::new();
    for k in LINTS {
        if d.chance(1, 2) {
            let v = (maybe(d, D::bool), maybe(d, severity), options(d));
            let mut t = toml::value::Table::new();
            if let Some(e) = v.0 {
                t.insert("enabled".into(), e.into());
            }
            if let Some(s) = v.1 {
                t.insert("severity".into(), SEVERITIES.iter().find(|x| x.1 == s).expect("known").0.into());
            }
            if !v.2.is_empty() {
                t.insert("options".into(), toml::Value::Table(v.2.iter().map(|(k, v)| (k.clone(), (*v).into())).collect()));
            }
            table.insert((*k).into(), t.into());
            over.insert(k, v);
        }
    }
    let configs: HashMap<String, LintConfigOverride> = table.try_into().map_err(|e: toml::de::Error| Fail::new("config", e.to_string()))?;
    // steps: one lint, several, or a group
    let mut steps: Vec<(u64, Vec<ModelLint>)> = Vec::new();
    for l in &all {
        match d.below(4) {
            0 if !steps.is_empty() && steps[steps.len() - 1].0 > 0 => steps.last_mut().expect("there").1.push(l.clone()),
            k => steps.push((k % 3, vec![l.clone()])),
        }
    }
    c.input(&format!("{steps:?}\n{over:?}"));
    c.nontrivial(!over.is_empty() && all.len() > 1);
    let mut m: LintManager<u32> = LintManager::new(configs);
    let mut single: Vec<ModelLint> = Vec::new();
    let mut groups: Vec<Vec<ModelLint>> = Vec::new();
    let settled = |l: &ModelLint| {
        let mut r = (l.enabled, l.severity, l.options.iter().cloned().collect::<BTreeMap<_, _>>());
        if let Some(o) = over.get(l.ident) {
            r.0 = o.0.unwrap_or(r.0);
            r.1 = o.1.unwrap_or(r.1);
            r.2.extend(o.2.iter().cloned());
        }
        r
    };
    for (kind, ls) in &steps {
        let boxed = || ls.iter().map(|l| Arc::new(Box::new(l.clone()) as Box<dyn Lint<u32>>)).collect::<Vec<_>>();
        let mut problems = 0;
        for l in ls {
            let min = l.minimum.unwrap_or(l.severity);
            problems += usize::from(single.iter().any(|s| s.ident == l.ident));
            if over.contains_key(l.ident) {
                let (e, s, _) = settled(l);
                problems += usize::from(s < min);
                problems += usize::from(!e && min == Severity::Error);
            }
        }
        let r = match kind {
            0 => m.push(boxed().remove(0)),
            1 => m.extend(boxed()),
            _ => m.push_group(boxed(), Box::new(Group)),
        };
        let n = r.as_ref().err().map_or(0, Vec::len);
        ensure!(n == problems, "problems", "{n} problems are reported for {ls:?}, there are {problems}");
        if let Err(codes) = r {
            c.note("refused");
            for x in codes {
                ensure!(ls.iter().any(|l| x.message().contains(l.ident)), "message", "{} for {ls:?}", x.message());
                ensure!(x.severity() == Severity::Error && x.diagnostic().is_some(), "severity", "{:?}", x.severity());
            }
            continue;
        }
        match kind {
            0 | 1 => single.extend(ls.iter().cloned()),
            _ => groups.push(ls.clone()),
        }
    }
    let project = if d.bool() { Some(ProjectConfig::test_project()) } else { None };
    let data = d.below(100) as u32;
    let text = name(d);
    let number = d.i64(-5, 5) as i32;
    for is_text in [true, false] {
        let target: &dyn std::any::Any = if is_text { &text } else { &number };
        let got: Vec<String> = m.run(&data, project.as_ref(), None, target).iter().map(|c| c.message()).collect();
        let shown = if is_text { text.clone() } else { number.to_string() };
        let line = |l: &ModelLint, i: usize| {
            let (e, s, o) = settled(l);
            let opts: Vec<String> = ["a", "b", "c", "Z", "_"].iter().filter_map(|k| o.get(*k).map(|v| format!("{k}={v}"))).collect();
            format!("{}.{i} {s:?} {e} {opts:?} {} {shown} {data}", l.ident, project.is_some())
        };
        let mut want: Vec<String> = Vec::new();
        for l in &single {
            if settled(l).0 {
                want.extend(l.runners.iter().enumerate().filter(|x| *x.1 == is_text).map(|(i, _)| line(l, i)));
            }
        }
        if is_text {
            for g in &groups {
                // the last of a name counts, and they are told in the order of their names
                let by: BTreeMap<&str, &ModelLint> = g.iter().filter(|l| settled(l).0).map(|l| (l.ident, l)).collect();
                want.extend(by.values().map(|l| line(l, 99)));
            }
        }
        same("codes", got, want)?;
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, facets| Property { id, level: "exploration", rule, facets, probes: vec![], assumptions: &[] };
    vec![
        p("G01", "the version has a build number or hash, or is malformed", vec![Facet::new("versions", 60_000, 3_000_000, versions), Facet::new("malformed", 60_000, 3_000_000, bad_versions)]),
        p("G02", "the prefix has several parts", vec![Facet::new("prefixes", 80_000, 4_000_000, prefixes)]),
        p("G03", "the settings go beyond the name and prefix, or have a mistake", vec![Facet::new("project", 20_000, 800_000, reads), Facet::new("mistakes", 20_000, 600_000, mistakes).hang(30), Facet::new("addon", 10_000, 300_000, addon), Facet::new("git_hash", 60, 2_000, git_hash)]),
        p("G04", "at least two lints, and settings for some", vec![Facet::new("lints", 60_000, 3_000_000, lints)]),
    ]
}
