//! The command line, run on generated projects.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use vpc::rap::{Entry, Val};
use vpc::{ensure, rap, Case, Facet, Fail, Property, D, R};

pub struct Out {
    pub code: Option<i32>,
    pub text: String,
    pub stdout: Vec<u8>,
}

/// Run the command line in a folder; everything it may write to lies in the scratch folder.
pub fn hemtt(root: &Path, args: &[&str]) -> Result<Out, Fail> {
    hemtt_with(root, args, &[])
}
pub fn hemtt_with(root: &Path, args: &[&str], env: &[(&str, String)]) -> Result<Out, Fail> {
    let exe = std::env::current_exe().expect("own path").with_file_name("vp-hemtt");
    let tmp = vpc::scratch().join("tmp");
    std::fs::create_dir_all(&tmp).expect("scratch");
    let o = Command::new(&exe)
        .args(args)
        .current_dir(root)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("CI", "true")
        .env("NO_COLOR", "1")
        .env("RAYON_NUM_THREADS", "2")
        .env("TMPDIR", &tmp)
        .env("HOME", &tmp)
        .envs(env.iter().map(|(k, v)| (*k, v)))
        .output()
        .map_err(|e| Fail::new("harness", format!("{}: {e}", exe.display())))?;
    let mut text = String::new();
    let mut skip = false;
    for l in format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)).lines() {
        // what only the log is for, which may go on over several lines
        skip = l.starts_with("TRACE") || l.starts_with("DEBUG") || (skip && (l.starts_with("    ") || l == "]"));
        if !skip {
            text.push_str(l);
            text.push('\n');
        }
    }
    ensure!(o.status.code().is_some() && o.status.code() != Some(101) && !text.contains("PANIC "), "crash", "hemtt {args:?} ends with {}:\n{text}", o.status);
    Ok(Out { code: o.status.code(), text, stdout: o.stdout })
}

/// A folder that is removed at the end of the case.
pub struct Root(pub PathBuf);
impl Root {
    pub fn new() -> Self {
        let p = vpc::scratch().join("project");
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch");
        Self(p)
    }
    pub fn put(&self, rel: &str, data: &[u8]) {
        let p = self.0.join(rel);
        std::fs::create_dir_all(p.parent().expect("parent")).expect("scratch");
        std::fs::write(p, data).expect("scratch");
    }
}
impl Drop for Root {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        let _ = std::fs::remove_dir_all(vpc::scratch().join("tmp"));
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(Vec<u8>),
    Link(PathBuf),
}
/// All files and links under a folder, by path relative to it.
pub fn tree(root: &Path) -> BTreeMap<String, Node> {
    fn go(at: &Path, rel: &str, out: &mut BTreeMap<String, Node>) {
        let Ok(list) = std::fs::read_dir(at) else { return };
        for e in list.flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
            let t = e.file_type().expect("type");
            if t.is_symlink() {
                out.insert(r, Node::Link(std::fs::read_link(e.path()).expect("link")));
            } else if t.is_dir() {
                go(&e.path(), &r, out);
            } else {
                out.insert(r, Node::File(std::fs::read(e.path()).expect("file")));
            }
        }
    }
    let mut out = BTreeMap::new();
    go(root, "", &mut out);
    out
}

/// Whether a file pattern matches: `*` and `?` (which cross folders unless `sep`), `[..]`,
/// and `**` for any number of folders.
pub fn glob(p: &str, s: &str, sep: bool) -> bool {
    fn go(p: &[char], s: &[char], sep: bool, start: bool) -> bool {
        match p {
            [] => s.is_empty(),
            ['*', '*', '/', rest @ ..] if start => {
                let mut at = true;
                for i in 0..=s.len() {
                    if at && go(rest, &s[i..], sep, true) {
                        return true;
                    }
                    at = s.get(i) == Some(&'/');
                }
                false
            }
            ['*', '*'] if start => true,
            ['*', rest @ ..] => (0..=s.len()).take_while(|i| !sep || !s[..*i].contains(&'/')).any(|i| go(rest, &s[i..], sep, false)),
            ['?', rest @ ..] => s.first().is_some_and(|c| !sep || *c != '/') && go(rest, &s[1..], sep, false),
            ['[', rest @ ..] => {
                let Some(e) = rest.iter().position(|c| *c == ']') else { return false };
                s.first().is_some_and(|c| rest[..e].contains(c)) && go(&rest[e + 1..], &s[1..], sep, false)
            }
            [c, rest @ ..] => s.first() == Some(c) && go(rest, &s[1..], sep, *c == '/'),
        }
    }
    let (p, s): (Vec<char>, Vec<char>) = (p.chars().collect(), s.chars().collect());
    go(&p, &s, sep, true)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Raw(Vec<u8>),
    Rap(Vec<Entry>),
    Sqfc,
}

#[derive(Default, Clone)]
pub struct Addon {
    pub name: String,
    pub optional: bool,
    pub prefix: String,
    pub prefix_file: String,
    pub files: BTreeMap<String, Vec<u8>>,
    /// What the config files among them say.
    pub configs: BTreeMap<String, Vec<Entry>>,
    pub exclude: Vec<String>,
    pub rap_off: bool,
    pub rap_exclude: Vec<String>,
    pub props: BTreeMap<String, String>,
    pub toml: bool,
}
impl Addon {
    pub fn folder(&self) -> String {
        format!("{}/{}", if self.optional { "optionals" } else { "addons" }, self.name)
    }
}

#[derive(Default, Clone)]
pub struct Mod {
    pub prefix: String,
    pub version: String,
    pub version_in_toml: Option<String>,
    pub addons: Vec<Addon>,
    pub exclude: Vec<String>,
    pub include: Vec<String>,
    pub props: BTreeMap<String, String>,
    /// Files outside of the addons.
    pub files: BTreeMap<String, Vec<u8>>,
    pub folders: Option<bool>,
    pub release_folder: Option<String>,
    pub sign: Option<bool>,
    pub archive: Option<bool>,
    pub authority: Option<String>,
    pub sig_version: Option<u32>,
    pub dev_exclude: Vec<String>,
}

fn quoted(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| quoted(s)).collect::<Vec<_>>().join(", "))
}
fn table(v: &BTreeMap<String, String>) -> String {
    v.iter().map(|(k, v)| format!("{} = {}\n", quoted(k), quoted(v))).collect()
}

/// A config text with macros and what it says.
pub fn config(d: &mut D, patch: Option<&str>, include: Option<&str>) -> (String, Vec<Entry>) {
    fn body(d: &mut D, depth: u32, lib: bool, out: &mut String, want: &mut Vec<Entry>) {
        let n = d.usize(0, 4);
        let mut classes: Vec<String> = vec![];
        for i in 0..n {
            match d.weighted(&[4, 4, 2, 3]) {
                0 => {
                    let v = d.i64(-5, 70_000);
                    if lib && d.bool() {
                        out.push_str(&format!("n{i} = SHARED_NUMBER; "));
                        want.push(Entry::Value(format!("n{i}"), Val::I32(1234)));
                    } else {
                        out.push_str(&format!("n{i} = {v};\n"));
                        want.push(Entry::Value(format!("n{i}"), Val::I32(v as i32)));
                    }
                }
                1 => {
                    let t = d.string_of(&['a', 'b', ' ', 'Z', '!', 'é', '/'], 0, 8);
                    if t.contains("//") || t.contains("/*") {
                        continue;
                    }
                    if lib && d.bool() {
                        out.push_str(&format!("s{i} = SHARED_QUOTE(some words);"));
                        want.push(Entry::Value(format!("s{i}"), Val::Str("some words".into())));
                    } else {
                        out.push_str(&format!("s{i} = \"{t}\";\n"));
                        want.push(Entry::Value(format!("s{i}"), Val::Str(t)));
                    }
                }
                2 => {
                    let v: Vec<i64> = d.vec(4, |d| d.i64(0, 300));
                    out.push_str(&format!("a{i}[] = {{{}}}; ", v.iter().map(ToString::to_string).collect::<Vec<_>>().join(", ")));
                    want.push(Entry::Array(format!("a{i}"), v.iter().map(|v| Val::I32(*v as i32)).collect()));
                }
                _ => {
                    if depth == 0 {
                        continue;
                    }
                    let parent = if classes.is_empty() || d.bool() { None } else { Some(d.pick(&classes).clone()) };
                    let name = format!("Class{i}");
                    out.push_str(&format!("class {name}{} {{\n", parent.as_ref().map_or(String::new(), |p| format!(": {p}"))));
                    let mut inner = vec![];
                    body(d, depth - 1, lib, out, &mut inner);
                    out.push_str("}; // done\n");
                    want.push(Entry::Class(name.clone(), parent, inner));
                    classes.push(name);
                }
            }
        }
    }
    let (mut out, mut want) = (String::new(), vec![]);
    if let Some(i) = include {
        out.push_str(&format!("#include \"{i}\"\n"));
    }
    if let Some(p) = patch {
        out.push_str(&format!("class CfgPatches {{\n class {p} {{\n  name = \"{p}\"; units[] = {{}}; weapons[] = {{}}; requiredAddons[] = {{}}; requiredVersion = 2.0;\n }};\n}};\n"));
        let e = |s: &str| Entry::Array(s.into(), vec![]);
        want.push(Entry::Class(
            "CfgPatches".into(),
            None,
            vec![Entry::Class(p.into(), None, vec![Entry::Value("name".into(), Val::Str(p.into())), e("units"), e("weapons"), e("requiredAddons"), Entry::Value("requiredVersion".into(), Val::F32(2.0f32.to_bits()))])],
        ));
    }
    body(d, 2, include.is_some(), &mut out, &mut want);
    (out, want)
}

const SHARED: &str = "#define SHARED_NUMBER 1234\n#define SHARED_QUOTE(t) #t\n";
const SCRIPTS: &[&str] = &["hint \"done\";\n", "private _a = 1 + 2;\nhint str _a;\n", "params [\"_x\"];\nif (_x > 2) then {\n\t_x = _x - 1;\n};\n_x\n", "true\n", "// nothing\ndiag_log text \"a\";\n"];

/// A config; one that asks what the game has can not be compiled ahead of time.
fn add_config(d: &mut D, a: &mut Addon, name: String, text: String, want: Vec<Entry>) {
    if d.chance(1, 8) {
        let asks = "#pragma hemtt flag pe23_ignore_has_include\n#if __has_include(\"\\x\\other\\config.cpp\")\n#include \"\\x\\other\\config.cpp\"\n#endif\n";
        a.configs.remove(&name);
        a.files.insert(name, format!("{asks}{text}").into_bytes());
    } else {
        a.files.insert(name.clone(), text.into_bytes());
        a.configs.insert(name, want);
    }
}

fn addon_files(d: &mut D, m: &Mod, a: &mut Addon, lib: Option<&str>) {
    let dirs = ["", "data/", "functions/", "addons/", "data/deep/er/"];
    let own = format!("{}/", a.folder());
    let n = d.usize(1, 9);
    for i in 0..n {
        let lib = lib.filter(|_| d.bool());
        let dir = if d.chance(1, 8) { own.clone() } else { (*d.pick(&dirs)).to_string() };
        let stem = d.string_of(&['a', 'b', 'c', '_', '1'], 1, 2);
        match d.weighted(&[5, 4, 2, 3, 3, 2, 1, 1]) {
            0 => {
                let ext = *d.pick(&["txt", "psd", "paa", "md", "hpp", "wss", "dat", "bikb"]);
                let mut b = d.bytes(60);
                if b.starts_with(&[0xef, 0xbb, 0xbf]) {
                    b.clear();
                }
                a.files.insert(format!("{dir}{stem}.{ext}"), b);
            }
            1 => {
                let s = *d.pick(SCRIPTS);
                let name = if d.chance(1, 5) { format!("{dir}{stem}.inc.sqf") } else { format!("{dir}fnc_{stem}.sqf") };
                a.files.insert(name, s.as_bytes().to_vec());
            }
            2 => {
                let (t, w) = config(d, None, None);
                let name = format!("{dir}{stem}.rvmat");
                add_config(d, a, name, t, w);
            }
            3 => {
                let (t, w) = config(d, None, lib);
                let name = format!("{dir}description.ext");
                add_config(d, a, name, t, w);
            }
            4 if i > 0 => {
                let (t, w) = config(d, Some(&format!("{}_{}", m.prefix.replace('.', "_"), a.name.replace('.', "_"))), lib);
                let dir = if d.chance(3, 4) { String::new() } else { dir };
                let name = format!("{dir}config.cpp");
                add_config(d, a, name, t, w);
                if d.chance(1, 5) {
                    a.files.insert(format!("{dir}config.bin"), d.bytes(20));
                }
            }
            5 => {
                let t = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"p\">\n    <Package name=\"q\">\n        <Key ID=\"STR_p_a\">\n            <English>A</English>\n        </Key>\n    </Package>\n</Project>\n";
                a.files.insert(format!("{dir}stringtable.xml"), t.into());
            }
            6 => {
                let (t, w) = config(d, None, None);
                let name = format!("{dir}{stem}.cpp");
                add_config(d, a, name, t, w);
            }
            _ => {
                a.files.insert(format!("{dir}F{stem}"), d.bytes(10));
            }
        }
    }
}

fn pattern(d: &mut D, base: &str, files: &[String]) -> String {
    let f = if files.is_empty() { "data/x.txt".to_string() } else { d.pick(files).clone() };
    let (dir, name) = f.rsplit_once('/').map_or(("", f.as_str()), |(a, b)| (a, b));
    let dir = if dir.is_empty() { String::new() } else { format!("{dir}/") };
    let ext = name.rsplit_once('.').map_or(name, |x| x.1);
    match d.below(8) {
        0 => format!("{base}{f}"),
        1 => format!("{base}{dir}*.{ext}"),
        2 => format!("{base}{dir}*"),
        3 => format!("{base}**/{name}"),
        4 => format!("{base}**/*.{ext}"),
        5 => format!("*.{ext}"),
        6 => format!("{base}data/**/*"),
        _ => {
            let mut s: Vec<char> = f.chars().collect();
            let i = d.usize(0, s.len() - 1);
            if s[i] != '/' {
                s[i] = '?';
            }
            format!("{base}{}", s.into_iter().collect::<String>())
        }
    }
}

fn props(d: &mut D) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for _ in 0..d.len(3) {
        let k = *d.pick(&["author", "url", "iso", "note", "a b", "hemtt", "prefix2"]);
        m.insert(k.to_string(), format!("v{}1", d.string_of(&['a', '1', ' ', '/', 'é', '.', '"', '\\'], 1, 8)));
    }
    m
}

pub fn project(d: &mut D) -> Mod {
    let mut m = Mod { prefix: (*d.pick(&["abe", "x", "my.mod", "tut_1"])).into(), ..Mod::default() };
    let (a, b, c) = (d.below(4), d.below(30), d.below(10));
    let build = d.chance(1, 3).then(|| d.below(9));
    m.version = build.map_or(format!("{a}.{b}.{c}"), |x| format!("{a}.{b}.{c}.{x}"));
    if d.chance(1, 3) {
        m.files.insert(
            "addons/main/script_version.hpp".into(),
            format!("#define MAJOR {a}\n#define MINOR {b}\n#define PATCHLVL {c}\n{}", build.map_or(String::new(), |b| format!("#define BUILD {b}\n"))).into_bytes(),
        );
    } else {
        m.version_in_toml = Some(format!("major = {a}\nminor = {b}\npatch = {c}\n{}", build.map_or(String::new(), |b| format!("build = {b}\n"))));
    }
    let names = ["main", "ui", "ui.old", "ui.new", "core_2", "addons", "a", "data", "Sounds", "UI_Extra"];
    let mut used = BTreeSet::new();
    used.insert(0);
    for _ in 0..d.usize(0, 4) {
        used.insert(d.usize(0, names.len() - 1));
    }
    let lib = format!("\\z\\{}\\addons\\main\\shared.hpp", m.prefix);
    for i in used {
        let mut a = Addon { name: names[i].into(), optional: i > 0 && d.chance(1, 3), ..Addon::default() };
        a.prefix = format!("z\\{}\\{}\\{}", m.prefix, if a.optional { "optionals" } else { "addons" }, a.name);
        a.prefix_file = (*d.pick(&["$PBOPREFIX$", "$PBOPREFIX$.txt", "$pboprefix$", "$Prefix$"])).into();
        addon_files(d, &m, &mut a, Some(&lib));
        if i == 0 {
            a.files.insert("shared.hpp".into(), SHARED.into());
            if let Some(v) = m.files.remove("addons/main/script_version.hpp") {
                a.files.insert("script_version.hpp".into(), v);
            }
        }
        if d.chance(1, 2) {
            a.toml = true;
            a.props = props(d);
            let files: Vec<String> = a.files.keys().cloned().collect();
            a.exclude = d.vec(2, |d| pattern(d, "", &files));
            a.rap_off = d.chance(1, 5);
            let files: Vec<String> = a.configs.keys().cloned().collect();
            let full = format!("/{}/", a.folder());
            a.rap_exclude = if d.bool() {
                vec![]
            } else {
                d.vec(2, |d| {
                    let base = if d.chance(1, 3) { full.as_str() } else { "" };
                    pattern(d, base, &files)
                })
            };
        }
        m.addons.push(a);
    }
    m.props = props(d);
    let all: Vec<String> = m.addons.iter().flat_map(|a| a.files.keys().map(|f| format!("{}/{f}", a.folder())).collect::<Vec<_>>()).collect();
    m.exclude = d.vec(2, |d| {
        let base = if d.bool() { "/" } else { "" };
        pattern(d, base, &all)
    });
    for f in ["mod.cpp", "meta.cpp", "LICENSE", "logo_ca.paa", "README.md", "extra.txt", "tools/x.py", "tools/sub/y.py", "tools/sub/z.md", "other/mod.cpp", ".hidden", ".extra/y.py", "docs/.keep"] {
        if d.chance(1, 2) {
            m.files.insert(f.into(), d.bytes(30));
        }
    }
    if d.chance(1, 3) {
        m.files.insert("include/x/cba/main/macros.hpp".into(), b"#define CBA 1\n".to_vec());
    }
    if d.chance(1, 4) {
        // commands of the project's own, used in scripts
        let n = d.usize(1, 2);
        for k in 0..n {
            let (call, used) = *d.pick(&[("Nular", "private _a = NAME;\n_a\n"), ("!Unary unit", "NAME player;\n"), ("!Binary [[unit, value], how]", "[player, 1] NAME 2;\n"), ("!Unary [a, b]", "private _b = str (NAME [1, 2]);\n_b\n")]);
            let name = ["bananize", "My_Command2"][k];
            let file = *d.pick(&["a.yml", "some command.yaml", "é.yml"]);
            m.files.insert(format!(".hemtt/commands/{k}{file}"), format!("name: {name}\ndescription: Something\nsyntax:\n- call: {call}\n  ret: [Nothing, null]\n  params: []\nargument_loc: Global\neffect_loc: Local\n").into_bytes());
            let a = d.usize(0, m.addons.len() - 1);
            let name = if d.bool() { name.to_lowercase() } else { name.to_string() };
            m.addons[a].files.insert(format!("fnc_own{k}.sqf"), used.replace("NAME", &name).into_bytes());
        }
    }
    m.include = d.vec(3, |d| (*d.pick(&["README.md", "tools/**", "tools/*", "*.md", "/extra.txt", "tools/*.py", "**/y.py", "*/sub/*", "docs/*", "missing.txt", "tools/[xy].py", "/tools/sub/?.md", "x/cba/**", ".hidden", ".extra/*", "/.*"])).to_string());
    m.folders = [None, Some(true), Some(false)][d.usize(0, 2)];
    if d.chance(1, 3) {
        m.release_folder = Some((*d.pick(&["other", "my mod", "v1.2"])).into());
    }
    m
}

impl Mod {
    pub fn toml(&self) -> String {
        let mut t = format!("name = \"A Mod\"\nprefix = {}\n\n[version]\n{}git_hash = 0\n\n[files]\ninclude = {}\nexclude = {}\n\n[properties]\n{}\n", quoted(&self.prefix), self.version_in_toml.clone().unwrap_or_default(), list(&self.include), list(&self.exclude), table(&self.props));
        if let Some(f) = self.folders {
            t.push_str(&format!("[hemtt.build]\noptional_mod_folders = {f}\n"));
        }
        t.push_str("[hemtt.release]\n");
        if let Some(f) = &self.release_folder {
            t.push_str(&format!("folder = {}\n", quoted(f)));
        }
        if let Some(f) = self.sign {
            t.push_str(&format!("sign = {f}\n"));
        }
        if let Some(f) = self.archive {
            t.push_str(&format!("archive = {f}\n"));
        }
        t.push_str(&format!("[hemtt.dev]\nexclude = {}\n", list(&self.dev_exclude)));
        t.push_str("[signing]\n");
        if let Some(a) = &self.authority {
            t.push_str(&format!("authority = {}\n", quoted(a)));
        }
        if let Some(v) = self.sig_version {
            t.push_str(&format!("version = {v}\n"));
        }
        t
    }
    pub fn write(&self, root: &Root) {
        root.put(".hemtt/project.toml", self.toml().as_bytes());
        for (f, b) in &self.files {
            root.put(f, b);
        }
        for a in &self.addons {
            let dir = a.folder();
            root.put(&format!("{dir}/{}", a.prefix_file), a.prefix.as_bytes());
            if a.toml {
                root.put(
                    &format!("{dir}/addon.toml"),
                    format!("[files]\nexclude = {}\n[rapify]\nenabled = {}\nexclude = {}\n[properties]\n{}", list(&a.exclude), !a.rap_off, list(&a.rap_exclude), table(&a.props)).as_bytes(),
                );
            }
            for (f, b) in &a.files {
                root.put(&format!("{dir}/{f}"), b);
            }
        }
    }
    pub fn describe(&self) -> String {
        let mut s = self.toml().replace('\n', "; ");
        for a in &self.addons {
            s.push_str(&format!("\n{}: {:?} exclude {:?} rapify {} except {:?}", a.folder(), a.files.keys().collect::<Vec<_>>(), a.exclude, !a.rap_off, a.rap_exclude));
        }
        s
    }
    /// What is in the virtual folder of an addon once configs and scripts are compiled.
    pub fn built(&self, a: &Addon, rap: bool) -> BTreeMap<String, Want> {
        let mut v: BTreeMap<String, Want> = a.files.iter().map(|(f, b)| (f.clone(), Want::Raw(b.clone()))).collect();
        for f in a.files.keys() {
            if f.ends_with(".sqf") && !f.ends_with(".inc.sqf") {
                v.insert(format!("{f}c"), Want::Sqfc);
            }
        }
        if rap && !a.rap_off {
            for (f, want) in &a.configs {
                let full = format!("/{}/{f}", a.folder());
                if a.rap_exclude.iter().any(|p| glob(p, f, true) || glob(p, &full, true)) {
                    continue;
                }
                let out = f.strip_suffix(".cpp").map_or(f.clone(), |s| format!("{s}.bin"));
                v.insert(out, Want::Rap(want.clone()));
            }
        }
        v
    }
    pub fn packed(&self, a: &Addon, rap: bool) -> BTreeMap<String, Want> {
        let v = self.built(a, rap);
        let has = |f: &str| v.contains_key(f);
        v.iter()
            .filter(|(f, _)| {
                let bin = f.rsplit_once('/').map_or("config.bin".to_string(), |(d, _)| format!("{d}/config.bin"));
                if (*f == "config.cpp" || f.ends_with("/config.cpp")) && has(&bin) {
                    return false;
                }
                let full = format!("{}/{f}", a.folder());
                !self.exclude.iter().any(|p| glob(p, &full, false) || glob(p, &format!("/{full}"), false)) && !a.exclude.iter().any(|p| glob(p, f, false))
            })
            .map(|(f, w)| (f.clone(), w.clone()))
            .collect()
    }
    pub fn properties(&self, a: &Addon) -> BTreeMap<String, String> {
        let mut p = BTreeMap::new();
        p.insert("prefix".into(), a.prefix.clone());
        p.insert("version".into(), self.version.clone());
        p.extend(self.props.clone());
        p.extend(a.props.clone());
        p
    }
    pub fn release_folder(&self) -> &str {
        self.release_folder.as_deref().unwrap_or(&self.prefix)
    }
    /// Where the PBO of an addon goes in the build folder.
    pub fn target(&self, a: &Addon) -> String {
        let pbo = format!("{}_{}.pbo", self.prefix, a.name);
        if !a.optional {
            format!("addons/{pbo}")
        } else if self.folders.unwrap_or(true) {
            format!("optionals/@{}_{}/addons/{pbo}", self.release_folder(), a.name)
        } else {
            format!("optionals/{pbo}")
        }
    }
    /// The files outside of addons that a build copies.
    pub fn copied(&self) -> BTreeMap<String, Vec<u8>> {
        let mut all = self.files.clone();
        for (f, b) in &self.files {
            if let Some(r) = f.strip_prefix("include/") {
                all.entry(r.into()).or_insert_with(|| b.clone());
            }
        }
        // the addons are part of the project too
        for a in &self.addons {
            for (f, b) in &a.files {
                all.insert(format!("{}/{f}", a.folder()), b.clone());
            }
            all.insert(format!("{}/{}", a.folder(), a.prefix_file), a.prefix.clone().into_bytes());
        }
        let mut pats: Vec<String> = self.include.iter().map(|p| if p.starts_with('/') { p.clone() } else { format!("/{p}") }).collect();
        pats.extend(["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"].map(String::from));
        all.into_iter().filter(|(f, _)| !f.starts_with(".hemtt/") && pats.iter().any(|p| glob(p, &format!("/{f}"), true))).collect()
    }
}

/// The PBO holds exactly these files and properties.
pub fn check_pbo(what: &str, bytes: &[u8], want: &BTreeMap<String, Want>, props: &BTreeMap<String, String>) -> R {
    let p = vpc::pbo::decode(bytes).map_err(|e| Fail::new("pbo", format!("{what}: {e}")))?;
    ensure!(p.checksum_ok, "pbo-checksum", "{what}: the checksum is not that of the contents");
    let mut got = BTreeMap::new();
    for e in &p.model.entries {
        ensure!(got.insert(e.name.replace('\\', "/"), e.data.clone()).is_none(), "pbo-twice", "{what} has {} twice", e.name);
        ensure!(!e.name.contains('/'), "pbo-name", "{what}: {:?} is not a path as the game writes it", e.name);
    }
    let (g, w): (Vec<_>, Vec<_>) = (got.keys().collect(), want.keys().collect());
    ensure!(g == w, "pbo-files", "{what} holds {g:?}\ninstead of {w:?}");
    for (f, w) in want {
        let b = &got[f];
        match w {
            Want::Raw(x) => ensure!(x == b, "pbo-data", "{what}: {f} holds {:?} instead of {:?}", vpc::show_bytes(b), vpc::show_bytes(x)),
            Want::Sqfc => ensure!(b.len() > 4 && b[..4] == [1, 0, 0, 0], "pbo-sqfc", "{what}: {f} is no compiled script: {}", vpc::show_bytes(b)),
            Want::Rap(x) => {
                let t = rap::decode(b).map_err(|e| Fail::new("pbo-config", format!("{what}: {f}: {e}")))?;
                ensure!(t == *x, "pbo-config", "{what}: {f} says {t:?}\ninstead of {x:?}");
            }
        }
    }
    let mut gp = BTreeMap::new();
    for (k, v) in &p.model.props {
        ensure!(gp.insert(k.clone(), v.clone()).is_none(), "pbo-property-twice", "{what} has property {k} twice");
    }
    ensure!(gp.contains_key("hemtt"), "pbo-properties", "{what} does not say what built it");
    gp.remove("git");
    if !props.contains_key("hemtt") {
        gp.remove("hemtt");
    }
    ensure!(gp == *props, "pbo-properties", "{what} has properties {gp:?}\ninstead of {props:?}");
    Ok(())
}

fn sources(root: &Path) -> BTreeMap<String, Node> {
    tree(root).into_iter().filter(|(f, _)| !f.starts_with(".hemttout/") && !f.starts_with("releases/")).collect()
}

fn files_are(what: &str, got: &BTreeMap<String, Node>, want: &BTreeSet<String>) -> R {
    let g: BTreeSet<String> = got.keys().cloned().collect();
    let more: Vec<_> = g.difference(want).collect();
    let less: Vec<_> = want.difference(&g).collect();
    ensure!(more.is_empty() && less.is_empty(), "build-files", "{what}: not expected {more:?}, missing {less:?}");
    Ok(())
}
fn file<'a>(t: &'a BTreeMap<String, Node>, f: &str) -> Result<&'a [u8], Fail> {
    match t.get(f) {
        Some(Node::File(b)) => Ok(b),
        x => Err(Fail::new("build-files", format!("{f} is {x:?}"))),
    }
}

fn build(d: &mut D, c: &mut Case) -> R {
    let m = project(d);
    c.input(&m.describe());
    let root = Root::new();
    m.write(&root);
    // some of it may be kept elsewhere
    let elsewhere = vpc::scratch().join("elsewhere");
    let _ = std::fs::remove_dir_all(&elsewhere);
    let mut linked = false;
    for (i, a) in m.addons.iter().enumerate() {
        let what = match d.below(12) {
            0 => a.folder(),
            1 if !a.files.is_empty() => format!("{}/{}", a.folder(), d.pick(&a.files.keys().collect::<Vec<_>>())),
            _ => continue,
        };
        let (at, to) = (root.0.join(&what), elsewhere.join(i.to_string()));
        if at.exists() && !at.is_symlink() {
            std::fs::create_dir_all(&elsewhere).expect("scratch");
            std::fs::rename(&at, &to).expect("scratch");
            std::os::unix::fs::symlink(&to, &at).expect("link");
            c.note(if to.is_dir() { "addon is a link" } else { "file is a link" });
            linked = true;
        }
    }
    let before_elsewhere = tree(&elsewhere);
    let no_rap = d.chance(1, 6);
    let twice = d.chance(1, 6);
    if d.chance(1, 4) {
        root.put(".hemttout/build/addons/old.pbo", b"left over");
    }
    let before = sources(&root.0);
    let mut args = vec!["build"];
    if no_rap {
        args.push("--no-rap");
    }
    if d.bool() {
        args.push("--no-bin");
    }
    let o = hemtt(&root.0, &args)?;
    ensure!(o.code == Some(0), "build-fails", "hemtt {args:?}: {:?}\n{}", o.code, o.text);
    ensure!(sources(&root.0) == before && tree(&elsewhere) == before_elsewhere, "sources", "the build changed the sources");
    let out = tree(&root.0.join(".hemttout/build"));
    let copied = m.copied();
    let mut want: BTreeSet<String> = copied.keys().cloned().collect();
    want.extend(m.addons.iter().map(|a| m.target(a)));
    files_are("build folder", &out, &want)?;
    for (f, b) in &copied {
        ensure!(file(&out, f)? == &b[..], "copy", "{f} is copied as {:?}", vpc::show_bytes(file(&out, f)?));
    }
    for a in &m.addons {
        let t = m.target(a);
        check_pbo(&t, file(&out, &t)?, &m.packed(a, !no_rap), &m.properties(a))?;
        let all = m.built(a, !no_rap).len();
        let left = m.packed(a, !no_rap).len();
        c.note_if(left < all && left > 0, "some excluded");
        c.note_if(!a.rap_exclude.is_empty() && !a.rap_off, "rapify exceptions");
        c.note_if(a.optional, "optional");
        c.note_if(a.name.contains('.'), "dotted name");
    }
    c.note_if(!copied.is_empty(), "copied files");
    c.nontrivial(m.addons.iter().map(|a| a.files.len()).sum::<usize>() > 4);
    c.note_if(linked, "links");
    if twice {
        let o = hemtt(&root.0, &args)?;
        ensure!(o.code == Some(0), "build-fails", "second build: {:?}\n{}", o.code, o.text);
        let again = tree(&root.0.join(".hemttout/build"));
        for (f, b) in &out {
            // (properties of a PBO are in no fixed order)
            if !f.ends_with(".pbo") {
                ensure!(again.get(f) == Some(b), "again", "{f} differs in a second build");
            }
        }
        files_are("second build", &again, &want)?;
        for a in &m.addons {
            let t = m.target(a);
            check_pbo(&t, file(&again, &t)?, &m.packed(a, !no_rap), &m.properties(a))?;
        }
        c.note("built twice");
    }
    Ok(())
}


/// Scripts of the project that change its virtual files before the build.
fn hooked(d: &mut D, c: &mut Case) -> R {
    let mut m = project(d);
    m.exclude.clear();
    m.include.clear();
    let root = Root::new();
    m.write(&root);
    let before_hooks = m.clone();
    let n = d.usize(1, 3);
    let mut lines = vec![];
    for i in 0..n {
        let k = d.usize(0, m.addons.len() - 1);
        let folder = m.addons[k].folder();
        let plain: Vec<String> = m.addons[k].files.keys().filter(|f| !m.addons[k].configs.contains_key(*f) && (f.ends_with(".txt") || f.ends_with(".dat") || f.ends_with(".md"))).cloned().collect();
        let a = &mut m.addons[k];
        let mut t = String::new();
        match d.below(5) {
            0 | 1 => {
                let f = if plain.is_empty() || d.bool() { format!("data/new{i}.txt") } else { d.pick(&plain).clone() };
                let text = d.string_of(&['a', ' ', 'é', '1'], 0, 6);
                if !a.files.keys().any(|x| x.starts_with("data/")) && f.starts_with("data/") {
                    t.push_str(&format!("HEMTT_VFS.join(\"{folder}/data\").create_dir();\n"));
                }
                t.push_str(&format!("HEMTT_VFS.join(\"{folder}/{f}\").create_file().write(\"{text}\");\n"));
                a.files.insert(f, text.into_bytes());
            }
            2 if !plain.is_empty() => {
                let f = d.pick(&plain).clone();
                t.push_str(&format!("HEMTT_VFS.join(\"{folder}/{f}\").remove_file();\n"));
                a.files.remove(&f);
            }
            3 if !plain.is_empty() => {
                let f = d.pick(&plain).clone();
                let to = format!("copy{i}.txt");
                t.push_str(&format!("HEMTT_VFS.join(\"{folder}/{f}\").copy(HEMTT_VFS.join(\"{folder}/{to}\"));\n"));
                let b = a.files[&f].clone();
                a.files.insert(to, b);
            }
            4 if !plain.is_empty() => {
                let f = d.pick(&plain).clone();
                let to = format!("moved{i}.txt");
                t.push_str(&format!("HEMTT_VFS.join(\"{folder}/{f}\").move(HEMTT_VFS.join(\"{folder}/{to}\"));\n"));
                let b = a.files.remove(&f).expect("file");
                a.files.insert(to, b);
            }
            _ => {
                t.push_str(&format!("HEMTT_VFS.join(\"{folder}/fnc_hook{i}.sqf\").create_file().write(\"hint 'x';\");\n"));
                a.files.insert(format!("fnc_hook{i}.sqf"), b"hint 'x';".to_vec());
            }
        }
        lines.push(t);
    }
    // one script, or one after the other by their names
    if d.bool() {
        root.put(".hemtt/hooks/pre_build/01_all.rhai", lines.concat().as_bytes());
    } else {
        let mut names: Vec<usize> = (0..n).collect();
        while names.len() > 1 && d.bool() {
            let i = d.usize(0, names.len() - 1);
            names.swap(0, i);
        }
        // written in any order, run in order of the names
        for i in names {
            root.put(&format!(".hemtt/hooks/pre_build/0{i}_step.rhai"), lines[i].as_bytes());
        }
    }
    c.input(&format!("{}\n{}", before_hooks.describe(), lines.concat()));
    let before = sources(&root.0);
    let o = hemtt(&root.0, &["build"])?;
    ensure!(o.code == Some(0), "build-fails", "{:?}\n{}", o.code, o.text);
    ensure!(sources(&root.0) == before, "sources", "a script on the virtual files changed the sources");
    let out = tree(&root.0.join(".hemttout/build"));
    for a in &m.addons {
        let t = m.target(a);
        check_pbo(&t, file(&out, &t)?, &m.packed(a, true), &m.properties(a))?;
    }
    c.nontrivial(n > 1);
    Ok(())
}

/// Development builds: which addons, where, and the links beside them.
fn dev(d: &mut D, c: &mut Case) -> R {
    let mut m = project(d);
    // `dev` keeps more than one kind of selection
    m.dev_exclude = d.vec(2, |d| {
        let a = d.pick(&m.addons).clone();
        match d.below(4) {
            0 => a.folder()[..a.folder().len() - 1].to_string(),
            1 => "optionals".to_string(),
            _ => a.folder(),
        }
    });
    let optionals: Vec<String> = m.addons.iter().filter(|a| a.optional).map(|a| a.name.clone()).collect();
    let all = d.chance(1, 4);
    let named: Vec<String> = if all || optionals.is_empty() { vec![] } else { d.vec(2, |d| d.pick(&optionals).clone()) };
    let just: Vec<String> = if d.chance(1, 4) {
        d.vec_between(1, 2, |d| {
            let n = d.pick(&m.addons).name.clone();
            if d.bool() { n.to_uppercase() } else { n }
        })
    } else {
        vec![]
    };
    let left_out = |a: &Addon| m.dev_exclude.iter().any(|e| a.folder() == *e || a.folder().starts_with(&format!("{e}/")));
    let chosen: Vec<&Addon> = m.addons.iter().filter(|a| (just.is_empty() || just.iter().any(|j| j.to_lowercase() == a.name.to_lowercase())) && (!a.optional || all || named.contains(&a.name)) && !left_out(a)).collect();
    let no_rap = d.chance(1, 6);
    let mut args: Vec<String> = vec!["dev".into()];
    for n in &named {
        args.extend(["-o".to_string(), n.clone()]);
    }
    if all {
        args.push("-O".into());
    }
    for n in &just {
        args.extend(["--just".to_string(), n.clone()]);
    }
    if no_rap {
        args.push("--no-rap".into());
    }
    c.input(&format!("hemtt {args:?}: {}", m.describe()));
    let root = Root::new();
    m.write(&root);
    let kept = d.chance(1, 3);
    if kept {
        root.put(".hemttout/dev/addons/old.pbo", b"left over");
    }
    let before = sources(&root.0);
    let o = hemtt(&root.0, &args.iter().map(String::as_str).collect::<Vec<_>>())?;
    ensure!(sources(&root.0) == before, "sources", "the build changed the sources");
    if named.iter().any(|n| !chosen.iter().any(|a| a.name == *n)) {
        ensure!(o.code == Some(1), "dev-optional", "an optional that was asked for is not built, and {args:?} ends with {:?}", o.code);
        c.note("optional not there");
        return Ok(());
    }
    ensure!(o.code == Some(0), "build-fails", "hemtt {args:?}: {:?}\n{}", o.code, o.text);
    let out = tree(&root.0.join(".hemttout/dev"));
    let copied = m.copied();
    let mut want: BTreeSet<String> = copied.keys().cloned().collect();
    for a in &chosen {
        want.insert(format!("addons/{}_{}.pbo", m.prefix, a.name));
        want.insert(format!("addons/{}", a.name));
    }
    if kept && !just.is_empty() {
        want.insert("addons/old.pbo".into());
    }
    files_are("dev folder", &out, &want)?;
    for a in &chosen {
        let t = format!("addons/{}_{}.pbo", m.prefix, a.name);
        check_pbo(&t, file(&out, &t)?, &m.packed(a, !no_rap), &m.properties(a))?;
        let link = out.get(&format!("addons/{}", a.name));
        let to = root.0.join(a.folder());
        ensure!(matches!(link, Some(Node::Link(p)) if *p == to), "dev-link", "addons/{} is {link:?} instead of a link to {}", a.name, to.display());
    }
    c.note_if(chosen.len() < m.addons.len(), "some left out");
    c.note_if(!named.is_empty() || all, "optionals");
    c.note_if(!just.is_empty(), "just");
    c.nontrivial(m.addons.len() > 1);
    Ok(())
}

fn verifies(what: &str, pbo: &[u8], key: &[u8], sig: &[u8]) -> R {
    let key = hemtt_signing::BIPublicKey::read(&mut &key[..]).map_err(|e| Fail::new("key", format!("{what}: {e}")))?;
    let sig = hemtt_signing::BISign::read(&mut &sig[..]).map_err(|e| Fail::new("signature", format!("{what}: {e}")))?;
    let mut p = hemtt_pbo::ReadablePbo::from(std::io::Cursor::new(pbo.to_vec())).map_err(|e| Fail::new("pbo", format!("{what}: {e}")))?;
    key.verify(&mut p, &sig).map_err(|e| Fail::new("verify", format!("{what}: {e}")))
}

/// Releases: everything built is signed and archived.
fn release(d: &mut D, c: &mut Case) -> R {
    let mut m = project(d);
    m.sign = [None, None, None, None, Some(true), Some(false)][d.usize(0, 5)];
    m.archive = [None, None, None, None, Some(true), Some(false)][d.usize(0, 5)];
    if d.chance(1, 3) {
        m.authority = Some((*d.pick(&["team", "My.Team", "t 1"])).into());
    }
    m.sig_version = [None, Some(2), Some(3)][d.usize(0, 2)];
    let no_sign = d.chance(1, 12);
    let no_archive = d.chance(1, 12);
    let mut args = vec!["release"];
    if no_sign {
        args.push("--no-sign");
    }
    if no_archive {
        args.push("--no-archive");
    }
    c.input(&format!("hemtt {args:?}: {}", m.describe()));
    let sign = m.sign.unwrap_or(true) && !no_sign;
    let archive = m.archive.unwrap_or(true) && !no_archive;
    let root = Root::new();
    m.write(&root);
    let before = sources(&root.0);
    let o = hemtt(&root.0, &args)?;
    let empty = m.addons.iter().any(|a| m.packed(a, true).is_empty());
    if empty && sign {
        // an empty PBO can not be signed
        c.note("empty PBO");
        return Ok(());
    }
    ensure!(o.code == Some(0), "release-fails", "hemtt {args:?}: {:?}\n{}", o.code, o.text);
    ensure!(sources(&root.0) == before, "sources", "the release changed the sources");
    let out = tree(&root.0.join(".hemttout/release"));
    let authority = format!("{}_{}", m.authority.as_ref().unwrap_or(&m.prefix), m.version);
    let copied = m.copied();
    let mut want: BTreeSet<String> = copied.keys().cloned().collect();
    let mut signed = vec![];
    let folders = m.folders.unwrap_or(true);
    for a in &m.addons {
        let t = m.target(a);
        if sign {
            let (auth, keys) = if a.optional && folders {
                (format!("{authority}_{}_{}", m.prefix, a.name), format!("optionals/@{}_{}/keys", m.release_folder(), a.name))
            } else {
                (authority.clone(), "keys".to_string())
            };
            let key = format!("{keys}/{auth}.bikey");
            let sig = format!("{t}.{auth}.bisign");
            want.insert(key.clone());
            want.insert(sig.clone());
            signed.push((t.clone(), key, sig, auth));
        }
        want.insert(t);
    }
    if sign {
        want.insert(format!("keys/{authority}.bikey"));
    }
    files_are("release folder", &out, &want)?;
    for a in &m.addons {
        let t = m.target(a);
        check_pbo(&t, file(&out, &t)?, &m.packed(a, true), &m.properties(a))?;
    }
    for (t, k, s, auth) in &signed {
        let (p, k, s) = (file(&out, t)?, file(&out, k)?, file(&out, s)?);
        verifies(t, p, k, s)?;
        ensure!(k.starts_with(format!("{auth}\0").as_bytes()), "authority", "the key of {t} is not for {auth}");
        let v = hemtt_signing::BISign::read(&mut &s[..]).expect("read before").version();
        ensure!(u32::from(v) == m.sig_version.unwrap_or(3), "signature-version", "{t} is signed with {v:?}, {:?} set", m.sig_version);
    }
    ensure!(!tree(&root.0).keys().any(|f| f.ends_with(".biprivatekey")), "private-key", "a private key is left behind");
    let zips: BTreeMap<String, Node> = tree(&root.0.join("releases"));
    let names: BTreeSet<String> = if archive { [format!("{}-latest.zip", m.prefix), format!("{}-{}.zip", m.prefix, m.version)].into() } else { BTreeSet::new() };
    files_are("releases", &zips, &names)?;
    for n in &names {
        let mut z = zip::ZipArchive::new(std::io::Cursor::new(file(&zips, n)?.to_vec())).map_err(|e| Fail::new("zip", format!("{n}: {e}")))?;
        let mut got = BTreeMap::new();
        for i in 0..z.len() {
            let mut f = z.by_index(i).map_err(|e| Fail::new("zip", format!("{n}: {e}")))?;
            if f.is_dir() {
                continue;
            }
            let mut b = vec![];
            std::io::Read::read_to_end(&mut f, &mut b).map_err(|e| Fail::new("zip", format!("{n}: {e}")))?;
            ensure!(got.insert(f.name().to_string(), b).is_none(), "zip", "{n} has {} twice", f.name());
        }
        let want: BTreeMap<String, Vec<u8>> = out.keys().map(|f| Ok((format!("@{}/{f}", m.release_folder()), file(&out, f)?.to_vec()))).collect::<Result<_, Fail>>()?;
        ensure!(got.keys().eq(want.keys()), "zip-files", "{n} holds {:?} instead of {:?}", got.keys(), want.keys());
        for (f, b) in &want {
            ensure!(got[f] == *b, "zip-data", "{n}: {f} differs from the release folder");
        }
    }
    c.note_if(sign, "signed");
    c.note_if(archive, "archived");
    c.note_if(m.addons.iter().any(|a| a.optional), "optionals");
    c.nontrivial(sign && archive);
    Ok(())
}


/// One thing wrong in a project: the run fails, says where, and leaves nothing to publish.
fn wrong(d: &mut D, c: &mut Case) -> R {
    let mut m = project(d);
    for a in &mut m.addons {
        a.rap_off = false;
        a.rap_exclude.clear();
    }
    let root = Root::new();
    let k = d.usize(0, m.addons.len() - 1);
    let folder = m.addons[k].folder();
    let cmd = *d.pick(&["build", "release", "check", "dev"]);
    let mut args = vec![cmd];
    if cmd == "dev" {
        args.push("-O");
    }
    let mut say: Option<String> = None;
    let mut late: Vec<(String, Vec<u8>)> = vec![];
    let dir = *d.pick(&["", "data/", "functions/sub/"]);
    let kind = d.usize(0, 13);
    let what = match kind {
        13 => {
            let good = "name: wrong\ndescription: a\nsyntax: []\nargument_loc: Global\neffect_loc: Local\n";
            let b: Vec<u8> = match d.below(5) {
                0 => good.replace("name: wrong\n", "").into(),
                1 => good.replace("Local", "Nowhere").into(),
                2 => b"name: \xff\xfe\n".to_vec(),
                3 => b"name: [\n".to_vec(),
                _ => vec![],
            };
            root.put(".hemtt/commands/wrong.yml", &b);
            say = Some("wrong.yml".into());
            "own command"
        }
        0 => {
            let t = *d.pick(&["class A {\n x = 1;\n", "x = 1\n", "class A { x = ; };\n", "class A { x = 1; } class B {};\n", "x[] = {1, 2;\n", "class A : {};\n"]);
            let f = format!("{dir}{}", d.pick(&["wrong.rvmat", "wrong.ext", "wrong.cpp"]));
            late.push((f.clone(), t.into()));
            say = Some(f);
            "config syntax"
        }
        1 => {
            let f = format!("{dir}fnc_wrong.sqf");
            let t = *d.pick(&["private _a = ;\n", "if (true) then {\n", "hint \"open\n", "[1, 2\n", "_a = (1 + 2;\n", "];\n"]);
            late.push((f.clone(), t.into()));
            say = Some(f);
            "script syntax"
        }
        2 => {
            let f = format!("{dir}fnc_wrong.sqf");
            late.push((f.clone(), b"#include \"nothing_here.hpp\"\nhint \"a\";\n".to_vec()));
            say = Some(f);
            "missing include in a script"
        }
        3 => {
            let f = format!("{dir}wrong.rvmat");
            late.push((f.clone(), b"#include \"\\z\\nothing\\here.hpp\"\nx = 1;\n".to_vec()));
            say = Some(f);
            "missing include in a config"
        }
        4 => {
            let f = format!("{dir}with_bom.{}", d.pick(&["txt", "hpp", "sqf", "xml"]));
            late.push((f.clone(), b"\xef\xbb\xbfhint \"a\";".to_vec()));
            say = Some(f);
            "byte order mark"
        }
        5 => {
            let f = format!("{dir}wrong.rvmat");
            let t = *d.pick(&["class A { x = 1; x = 2; };\n", "class A {}; class A {};\n", "class A : Missing { x = 1; };\n", "x[] = 1;\n", "x = {1};\n"]);
            late.push((f.clone(), t.into()));
            say = Some(f);
            "config meaning"
        }
        6 => {
            let f = format!("{dir}fnc_wrong.sqf");
            let t = *d.pick(&["#define A(x) x\nA(1, 2)\n", "#ifdef A\nhint \"a\";\n", "#unknown\nhint \"a\";\n", "#define A(x\nhint \"a\";\n"]);
            late.push((f.clone(), t.into()));
            say = Some(f);
            "directive"
        }
        7 => {
            late.push(("addon.toml".into(), (*d.pick(&["[files\n", "exclude = 3\n[files]\nexclude = 5\n", "[properties]\na = 1\n", "[rapify]\nenabled = \"no\"\n"])).into()));
            m.addons[k].toml = false;
            "addon settings"
        }
        8 => {
            m.addons[k].toml = true;
            // (what another pattern leaves out is not looked at any more)
            m.exclude.clear();
            m.addons[k].exclude = vec![(*d.pick(&["a[", "***", "a**b"])).into()];
            m.addons[k].files.insert("some.txt".into(), vec![1]);
            "pattern"
        }
        9 => {
            let other = Addon { name: "twin".into(), prefix: m.addons[k].prefix.clone(), prefix_file: "$PBOPREFIX$".into(), ..Addon::default() };
            m.addons.push(other);
            "prefix used twice"
        }
        10 => {
            let n = m.addons[k].name.clone();
            let mut other = Addon { name: if d.bool() { n.clone() } else { n.to_uppercase() }, optional: !m.addons[k].optional, prefix: "z\\other\\one".into(), prefix_file: "$PBOPREFIX$".into(), ..Addon::default() };
            other.files.insert("a.txt".into(), vec![1]);
            m.addons.push(other);
            "addon in both places"
        }
        11 => {
            m.addons[k].prefix_file = "no_prefix.txt".into();
            "no prefix"
        }
        _ => {
            let phase = *d.pick(&["pre_build", "pre_build", "post_build"]);
            let t = *d.pick(&["fatal(\"stop here\");", "nothing_known();", "let x = ;", "throw \"stop\";"]);
            root.put(&format!(".hemtt/hooks/{phase}/01_stop.rhai"), t.as_bytes());
            // (a syntax check needs the whole run only for this one)
            if cmd == "check" && phase == "post_build" && t != "let x = ;" {
                c.note("not run");
                return Ok(());
            }
            "hook"
        }
    };
    c.note(what);
    // patterns are only needed where an addon is packed
    if cmd == "check" && what == "pattern" {
        return Ok(());
    }
    m.write(&root);
    for (f, b) in &late {
        root.put(&format!("{folder}/{f}"), b);
    }
    c.input(&format!("{what}, hemtt {args:?}: {late:?} in {folder} of {}", m.describe()));
    let o = hemtt(&root.0, &args)?;
    ensure!(o.code == Some(1), "not-failed", "{what}: hemtt {args:?} ends with {:?}\n{}", o.code, o.text);
    ensure!(o.text.to_lowercase().contains("error"), "not-said", "{what}: no error is shown:\n{}", o.text);
    if let Some(f) = say {
        let f = f.rsplit('/').next().expect("name").to_string();
        ensure!(o.text.contains(&f), "not-said", "{what}: {f} is not named:\n{}", o.text);
    }
    let all = tree(&root.0);
    ensure!(!all.keys().any(|f| f.ends_with(".zip") || f.ends_with(".bisign") || f.ends_with(".biprivatekey")), "released", "{what}: something was released: {:?}", all.keys());
    if what != "hook" && what != "pattern" {
        ensure!(!all.keys().any(|f| f.ends_with(".pbo")), "built", "{what}: {:?} was built", all.keys().filter(|f| f.ends_with(".pbo")).collect::<Vec<_>>());
    }
    c.nontrivial(true);
    Ok(())
}

/// `check` is quiet exactly where a build is, and builds nothing.
fn check(d: &mut D, c: &mut Case) -> R {
    let m = project(d);
    c.input(&m.describe());
    let root = Root::new();
    m.write(&root);
    let before = sources(&root.0);
    let o = hemtt(&root.0, &["check"])?;
    ensure!(o.code == Some(0), "check-fails", "{:?}\n{}", o.code, o.text);
    ensure!(sources(&root.0) == before, "sources", "the check changed the sources");
    let all = tree(&root.0.join(".hemttout"));
    ensure!(all.keys().all(|f| f == "ci_annotations.txt" || f == "latest.log"), "check-built", "a check leaves {:?}", all.keys());
    c.nontrivial(m.addons.iter().map(|a| a.files.len()).sum::<usize>() > 4);
    Ok(())
}

/// The values a project is asked for.
fn values(d: &mut D, c: &mut Case) -> R {
    let mut m = project(d);
    if d.bool() {
        m.authority = Some("team".into());
    }
    m.sig_version = [None, Some(2), Some(3)][d.usize(0, 2)];
    c.input(&m.describe());
    let root = Root::new();
    m.write(&root);
    let before = sources(&root.0);
    let v: Vec<&str> = m.version.split('.').collect();
    let mut include: Vec<String> = m.include.iter().map(|p| if p.starts_with('/') { p.clone() } else { format!("/{p}") }).collect();
    include.extend(["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"].map(String::from));
    include.sort();
    include.dedup();
    let wants = [
        ("project.name", "A Mod".to_string()),
        ("project.prefix", m.prefix.clone()),
        ("project.mainprefix", String::new()),
        ("project.version", m.version.clone()),
        ("project.version.short", v[..3].join(".")),
        ("project.version.major", v[0].into()),
        ("project.version.minor", v[1].into()),
        ("project.version.patch", v[2].into()),
        ("project.version.build", v.get(3).copied().unwrap_or("").into()),
        ("project.version.path", "addons/main/script_version.hpp".into()),
        ("project.version.git_hash", "0".into()),
        ("project.signing.authority", format!("{}_{}", m.authority.as_ref().unwrap_or(&m.prefix), m.version)),
        ("project.signing.version", format!("V{}", m.sig_version.unwrap_or(3))),
        ("project.files.include", include.join("\n")),
        ("project.files.exclude", m.exclude.join("\n")),
    ];
    let n = d.usize(1, 3);
    for _ in 0..n {
        let (name, want) = d.pick(&wants).clone();
        let o = hemtt(&root.0, &["value", name])?;
        ensure!(o.code == Some(0) && o.stdout == format!("{want}\n").into_bytes(), "value", "{name} is {:?} ({:?}) instead of {want:?}", String::from_utf8_lossy(&o.stdout), o.code);
    }
    let o = hemtt(&root.0, &["value", "project.nothing"])?;
    ensure!(o.code == Some(1), "value", "an unknown name ends with {:?}", o.code);
    ensure!(sources(&root.0) == before, "sources", "asking for values changed the sources");
    c.nontrivial(true);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, facets| Property { id, level: "exploration", rule, facets, probes: vec![], assumptions: &["the list of commands is a stand-in for the wiki of the game"] };
    vec![
        p("E01", "the project has more than four files in its addons, two addons, or two scripted changes", vec![Facet::new("build", 300, 20_000, build), Facet::new("hooks", 150, 10_000, hooked), Facet::new("dev", 250, 15_000, dev)]),
        p("E03", "every case has one thing wrong, or a project of more than four files to check", vec![Facet::new("wrong", 300, 20_000, wrong), Facet::new("check", 120, 5_000, check), Facet::new("values", 60, 2_000, values)]),
        p("E02", "the release is signed and archived", vec![Facet::new("release", 200, 10_000, release)]),
    ]
}
