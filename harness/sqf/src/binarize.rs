//! Models and other binarized files, with a stand-in for the tool of the game.
use crate::e2e::{check_pbo, glob, hemtt_with, tree, Node, Root, Want};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use vpc::rap::{Entry, Val};
use vpc::{ensure, fail, Case, Facet, Fail, Property, D, R};

/// Notes what it is asked for, and what it can see.
const TOOL: &str = r#"#!/bin/sh
[ "$1" = --version ] && exit 0
while [ "$1" != "-norecurse" ]; do
  [ $# = 0 ] && exit 9
  shift
done
shift
slash() { printf '%s' "$1" | tr '\\' /; }
opts=
while [ $# -gt 3 ]; do opts="$opts $1"; shift; done
from=$(slash "$1"); to=$(slash "$2")
seen=yes
if [ -f "$VP_SEE" ]; then
  while IFS= read -r f; do [ -e "$f" ] || seen="no $f"; done < "$VP_SEE"
fi
printf '%s|%s|%s|%s|%s\n' "$opts" "$1" "$2" "$3" "$seen" >> "$VP_LOG"
case "$3" in
  none*) exit 0 ;;
  fail*) exit 3 ;;
esac
[ -d "$to" ] || exit 4
{ printf 'BIN:'; cat "$from/$3"; } > "$to/$3" || exit 5
"#;

#[derive(Clone, Debug)]
struct Model {
    textures: Vec<String>,
    materials: Vec<String>,
}
#[derive(Clone, Debug)]
enum Kind {
    Model(Model),
    /// to be binarized, not looked into
    Other,
    /// left as it is
    Plain,
}
struct File {
    name: String,
    data: Vec<u8>,
    kind: Kind,
}
struct Addon {
    name: String,
    optional: bool,
    prefix: String,
    files: Vec<File>,
    enabled: Option<bool>,
    exclude: Vec<String>,
}
impl Addon {
    fn folder(&self) -> String {
        format!("{}/{}", if self.optional { "optionals" } else { "addons" }, self.name)
    }
    fn takes(&self, f: &File) -> bool {
        !matches!(f.kind, Kind::Plain) && self.enabled != Some(false) && !self.exclude.iter().any(|p| glob(p, &f.name, false))
    }
}

fn mlod(d: &mut D, m: &Model) -> Vec<u8> {
    let mut o = b"MLOD\x01\x01\0\0".to_vec();
    let n = d.usize(1, 3);
    let faces: Vec<(String, String)> = (0..m.textures.len().max(m.materials.len())).map(|i| (m.textures.get(i).cloned().unwrap_or_default(), m.materials.get(i).cloned().unwrap_or_default())).collect();
    // the faces are spread over the resolutions
    let mut lods: Vec<Vec<&(String, String)>> = vec![vec![]; n];
    for f in &faces {
        let k = d.usize(0, n - 1);
        lods[k].push(f);
        if d.chance(1, 4) {
            let k = d.usize(0, n - 1);
            lods[k].push(f);
        }
    }
    let u = |o: &mut Vec<u8>, v: u32| o.extend(v.to_le_bytes());
    u(&mut o, n as u32);
    for l in lods {
        o.extend(b"P3DM");
        u(&mut o, 28);
        u(&mut o, 256);
        for k in [1, 1, l.len() as u32, 0] {
            u(&mut o, k);
        }
        o.extend([0; 16]);
        o.extend([0; 12]);
        for (t, m) in l {
            let k = if d.bool() { 3 } else { 4 };
            u(&mut o, k);
            o.extend([0; 64]);
            u(&mut o, 0);
            o.extend(t.bytes());
            o.push(0);
            o.extend(m.bytes());
            o.push(0);
        }
        o.extend(b"TAGG");
        o.extend(b"\x01#EndOfFile#\0\0\0\0\0");
        u(&mut o, 0x3f80_0000);
    }
    o
}

/// What a model uses, some of which is not there.
fn uses(d: &mut D, there: &[String], kinds: &[&str]) -> Vec<String> {
    d.vec(4, |d| {
        let ok: Vec<&String> = there.iter().filter(|f| kinds.iter().any(|k| f.ends_with(k))).collect();
        let mut s = match d.below(6) {
            0 => String::new(),
            1 if kinds.len() > 1 => (*d.pick(&["#(argb,8,8,3)color(0,0,0,1,co)", "#(rgb,1,1,1)color(1,1,1,1)"])).to_string(),
            2 => format!("z\\lost\\{}{}", d.pick(&["a", "b", "c"]), d.pick(kinds)),
            _ if ok.is_empty() => String::new(),
            _ => (*d.pick(&ok)).clone(),
        };
        if kinds.len() > 1 && d.chance(1, 4) {
            // the other spelling of the same picture
            if let Some(b) = s.strip_suffix(".paa") {
                s = format!("{b}.tga");
            } else if let Some(b) = s.strip_suffix(".tga") {
                s = format!("{b}.paa");
            }
        }
        if d.chance(1, 8) && !s.is_empty() && !s.starts_with('#') {
            s.push('x');
        }
        s
    })
}
fn missing(used: &[String], there: &[String], pictures: bool) -> BTreeSet<String> {
    used.iter()
        .filter(|u| !u.is_empty() && !(pictures && u.starts_with('#')))
        .filter(|u| {
            let u = u.trim_start_matches('\\');
            let other = if !pictures {
                None
            } else if let Some(b) = u.strip_suffix(".paa") {
                Some(format!("{b}.tga"))
            } else if let Some(b) = u.strip_suffix(".tga") {
                Some(format!("{b}.paa"))
            } else {
                u.strip_suffix(".png").map(|b| format!("{b}.paa"))
            };
            !there.iter().any(|t| t == u || Some(t) == other.as_ref())
        })
        .map(|u| format!("/{}", u.trim_start_matches('\\').replace('\\', "/")))
        .collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tools {
    Wine,
    /// where they are by default
    Home,
    Proton,
    NoWine,
    No,
}

/// Without colours
fn plain(s: &str) -> String {
    let mut parts = s.split('\u{1b}');
    let first = parts.next().unwrap_or_default().to_string();
    parts.fold(first, |a, p| a + p.split_once('m').map_or("", |(_, r)| r))
}

fn run(path: &Path, text: &str) {
    std::fs::create_dir_all(path.parent().expect("parent")).expect("scratch");
    std::fs::write(path, text).expect("scratch");
    std::fs::set_permissions(path, std::fs::Permissions::from_mode(0o755)).expect("scratch");
}

fn binarize(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let side = vpc::scratch().join("side");
    let _ = std::fs::remove_dir_all(&side);
    std::fs::create_dir_all(&side).expect("scratch");
    // ---- the project
    let mut addons: Vec<Addon> = Vec::new();
    for k in 0..d.usize(1, 3) {
        let name = ["main", "weapons", "ui_f"][k].to_string();
        let prefix = if k > 0 && d.chance(1, 5) {
            // below another one
            format!("{}\\{}", d.pick(&addons).prefix, d.pick(&["nested", "data\\nested", "data\\sub\\nested"]))
        } else {
            format!("{}{name}", d.pick(&["z\\abe\\addons\\", "z\\abe\\addons\\", "x\\", "", "abe\\"]))
        };
        if addons.iter().any(|a| a.prefix == prefix || a.prefix.starts_with(&format!("{prefix}\\"))) {
            continue;
        }
        let mut a = Addon { name, optional: d.chance(1, 5), prefix, files: vec![], enabled: [None, None, None, None, Some(true), Some(false)][d.usize(0, 5)], exclude: vec![] };
        let folder = a.folder();
        for _ in 0..d.usize(0, 6) {
            let dir = match d.below(8) {
                0..=2 => String::new(),
                3 | 4 => "data/".into(),
                5 => "data/sub/".into(),
                6 => format!("{folder}/"),
                _ => "a b/".into(),
            };
            let base = *d.pick(&["box", "gun", "map", "walk", "ca", "tex", "mat", "x.y", "é"]);
            let ext = *d.pick(&["p3d", "p3d", "p3d", "rtm", "wrp", "paa", "tga", "rvmat", "txt", "bin"]);
            let f = format!("{dir}{base}.{ext}");
            if a.files.iter().any(|o| o.name == f) {
                continue;
            }
            a.files.push(File { name: f, data: vec![], kind: Kind::Plain });
        }
        if d.chance(1, 3) {
            let p: &[&str] = &["*.p3d", "data/*.p3d", "data/*", "box.p3d", "**/gun.p3d", "*.rtm", "map.wrp", "data/**/*", "w*.???", "main/*", "[bg]*.p3d"];
            a.exclude = (0..d.usize(1, 2)).map(|_| (*d.pick(p)).to_string()).collect();
        }
        addons.push(a);
    }
    let there: Vec<String> = addons.iter().flat_map(|a| a.files.iter().map(|f| format!("{}\\{}", a.prefix, f.name.replace('/', "\\")))).collect();
    // where the tool has to go wrong
    let mut wrong = None;
    let mut damaged = None;
    for a in &mut addons {
        let (folder, enabled, exclude) = (a.folder(), a.enabled, a.exclude.clone());
        for f in &mut a.files {
            let ext = f.name.rsplit_once('.').map_or("", |(_, e)| e).to_string();
            let n = format!("{}/{}", folder, f.name).into_bytes();
            let with = |m: &[u8]| [m, &n[..]].concat();
            (f.data, f.kind) = match ext.as_str() {
                "p3d" | "rtm" | "wrp" => match d.weighted(&[10, 2, 1, if ext == "p3d" { 0 } else { 6 }, 1]) {
                    0 if ext == "p3d" || d.chance(1, 20) => {
                        let lead = if d.bool() { "\\" } else { "" };
                        let form = |v: Vec<String>| v.into_iter().map(|s| if s.is_empty() || s.starts_with('#') { s } else { format!("{lead}{s}") }).collect::<Vec<_>>();
                        let m = Model { textures: form(uses(d, &there, &[".paa", ".tga"])), materials: form(uses(d, &there, &[".rvmat"])) };
                        (mlod(d, &m), Kind::Model(m))
                    }
                    1 => (with(*d.pick(&[b"ODOL", b"BMTR", b"OPRW"])), Kind::Plain),
                    2 => (d.pick(&[&b""[..], b"M", b"MLO"]).to_vec(), Kind::Plain),
                    4 if damaged.is_none() && enabled != Some(false) && !exclude.iter().any(|p| glob(p, &f.name, false)) && d.chance(1, 4) => {
                        let m = Model { textures: vec![], materials: vec![] };
                        let mut b = mlod(d, &m);
                        b.truncate(d.usize(4, b.len() - 1));
                        damaged = Some((folder.clone(), f.name.clone()));
                        (b, Kind::Other)
                    }
                    _ => (with(*d.pick(&[b"RTM_", b"8WVR", b"odol", b"ODOM", b"XXXX"])), Kind::Other),
                },
                "rvmat" => (b"a = 1;\n".to_vec(), Kind::Plain),
                _ => (n, Kind::Plain),
            };
        }
    }
    let tools = [Tools::Wine, Tools::Wine, Tools::Home, Tools::Proton, Tools::Proton, Tools::NoWine, Tools::No][d.usize(0, 6)];
    let has_tool = matches!(tools, Tools::Wine | Tools::Home | Tools::Proton);
    let mut no_addons_folder = false;
    if addons.iter().all(|a| a.optional) {
        no_addons_folder = d.bool();
    }
    if !no_addons_folder {
        std::fs::create_dir_all(root.0.join("addons")).expect("scratch");
    }
    let (command, args): (&str, &[&str]) = *d.pick(&[("build", &["build"][..]), ("build", &["build"]), ("build", &["build", "--no-bin"]), ("dev", &["dev", "-O"]), ("dev", &["dev", "-O", "--binarize"]), ("dev", &["dev", "-b"]), ("check", &["check"])]);
    let works = !args.contains(&"--no-bin") && (command != "dev" || args.contains(&"--binarize") || args.contains(&"-b"));
    let selected = |a: &Addon| !a.optional || command != "dev" || args.contains(&"-O");
    // left alone when its folder is not built
    let damaged = damaged.filter(|(at, _)| addons.iter().any(|a| a.folder() == *at && selected(a))).map(|(_, f)| f);
    if has_tool && works && command != "check" && damaged.is_none() && d.chance(1, 6) {
        let all: Vec<(usize, usize)> = addons.iter().enumerate().filter(|(_, a)| selected(a)).flat_map(|(i, a)| a.files.iter().enumerate().filter(|(_, f)| a.takes(f)).map(move |(j, _)| (i, j))).collect();
        if !all.is_empty() {
            let (i, j) = *d.pick(&all);
            let how = *d.pick(&["none", "fail"]);
            let f = &mut addons[i].files[j];
            let (dir, name) = f.name.rsplit_once('/').map_or(("", f.name.as_str()), |(a, b)| (a, b));
            let new = format!("{how}_{name}");
            let whole = if dir.is_empty() { new.clone() } else { format!("{dir}/{new}") };
            f.name = whole;
            if addons[i].takes(&addons[i].files[j]) {
                wrong = Some(new);
            }
        }
    }
    let options = [None, None, Some("ignore"), Some("disallow"), Some("disallow"), Some("require")];
    let (for_build, for_check) = (*d.pick(&options), *d.pick(&options));
    let mut toml = String::from("name = \"A Mod\"\nprefix = \"abe\"\n[version]\nmajor = 1\nminor = 2\npatch = 3\ngit_hash = 0\n[hemtt.build]\noptional_mod_folders = false\n");
    let option = |b: &str| format!("pdrive = \"{b}\"\n");
    toml.push_str(&for_build.map_or(String::new(), option));
    toml.push_str("[hemtt.check]\n");
    toml.push_str(&for_check.map_or(String::new(), option));
    root.put(".hemtt/project.toml", toml.as_bytes());
    let mut shown = format!("{args:?} {tools:?} pdrive {for_build:?} {for_check:?}, wrong {wrong:?}, damaged {damaged:?}\n");
    for a in &addons {
        let at = a.folder();
        root.put(&format!("{at}/$PBOPREFIX$"), a.prefix.as_bytes());
        if a.enabled.is_some() || !a.exclude.is_empty() {
            let e: Vec<String> = a.exclude.iter().map(|e| format!("\"{e}\"")).collect();
            let text = format!("[binarize]\n{}exclude = [{}]\n", a.enabled.map_or(String::new(), |b| format!("enabled = {b}\n")), e.join(", "));
            root.put(&format!("{at}/addon.toml"), text.as_bytes());
        }
        shown.push_str(&format!("{at} = {} {:?} without {:?}\n", a.prefix, a.enabled, a.exclude));
        for f in &a.files {
            root.put(&format!("{at}/{}", f.name), &f.data);
            shown.push_str(&format!("  {} {:?}\n", f.name, f.kind));
        }
    }
    let mut see: Vec<String> = addons.iter().flat_map(|a| a.files.iter().map(|f| format!("{}/{}", a.prefix.replace('\\', "/"), f.name))).collect();
    if d.chance(1, 3) {
        root.put("include/y/lib/addons/a.hpp", b"// a");
        see.push("y/lib/addons/a.hpp".into());
    }
    if d.chance(1, 6) {
        // of the same mod
        root.put("include/z/abe/other/b.hpp", b"// b");
        see.push("z/abe/other/b.hpp".into());
    }
    if d.chance(1, 3) && !no_addons_folder {
        root.put("addons/shared.txt", b"shared");
        see.push("shared.txt".into());
    }
    c.input(&shown);
    // ---- the tools
    let home = side.join("home");
    std::fs::create_dir_all(&home).expect("scratch");
    let mut env = vec![("VP_LOG", side.join("log")), ("VP_SEE", side.join("see")), ("HOME", home.clone())];
    std::fs::write(side.join("see"), see.iter().map(|s| format!("{s}\n")).collect::<String>()).expect("scratch");
    let bi = if tools == Tools::Home { home.join(".local/share/arma3tools") } else { side.join("tools") };
    if tools != Tools::Home {
        env.push(("HEMTT_BI_TOOLS", bi.clone()));
    }
    if tools != Tools::No {
        run(&bi.join("Binarize/binarize_x64.exe"), "");
    }
    let mut path = String::from("/usr/bin:/bin");
    match tools {
        Tools::Wine | Tools::Home => {
            run(&side.join("bin/wine64"), TOOL);
            path = format!("{}:{path}", side.join("bin").display());
        }
        Tools::Proton => run(&home.join(".local/share/Steam/steamapps/common/SteamLinuxRuntime_sniper/run"), TOOL),
        _ => (),
    }
    let mut env: Vec<(&str, String)> = env.into_iter().map(|(k, v)| (k, v.display().to_string())).collect();
    env.push(("PATH", path));
    let strip = |t: BTreeMap<String, Node>| t.into_iter().filter(|(f, _)| !f.starts_with(".hemttout/")).collect::<BTreeMap<_, _>>();
    let before = strip(tree(&root.0));
    let mut o = hemtt_with(&root.0, args, &env)?;
    o.text = plain(&o.text);
    ensure!(strip(tree(&root.0)) == before, "sources", "the sources are changed: {:?}", strip(tree(&root.0)).keys().filter(|k| !before.contains_key(*k)).collect::<Vec<_>>());
    let log = std::fs::read_to_string(side.join("log")).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&side);
    // ---- what the models lack
    let pdrive = if command == "check" { for_check } else { for_build }.unwrap_or("ignore");
    let mut errors = works && damaged.is_none() && pdrive == "require";
    ensure!(o.text.contains("error") && o.text.contains("BBE6") == errors || !errors, "pdrive", "{pdrive}: {}", o.text);
    ensure!(errors || !o.text.contains("BBE6"), "pdrive", "{pdrive}: {}", o.text);
    let pdrive = pdrive == "ignore";
    for a in &addons {
        for f in &a.files {
            let Kind::Model(m) = &f.kind else { continue };
            let entry = format!("/{}/{}", a.folder(), f.name);
            let checked = works && selected(a) && a.takes(f) && damaged.is_none();
            for (what, used, pictures) in [("texture", &m.textures, true), ("material", &m.materials, false)] {
                let want = if checked { missing(used, &there, pictures) } else { BTreeSet::new() };
                let mut got = BTreeSet::new();
                let mut lines = o.text.lines();
                while let Some(l) = lines.next() {
                    let Some((head, n)) = l.split_once(&format!(": {entry} is missing ")) else { continue };
                    let Some((n, rest)) = n.split_once(' ') else { continue };
                    if rest.trim_end_matches("s:").trim_end_matches(':') != what {
                        continue;
                    }
                    let n: usize = n.parse().map_err(|_| Fail::new("report", l.to_string()))?;
                    ensure!(head.contains(if pdrive { "warning[" } else { "error[" }), "severity", "{l}");
                    for _ in 0..n {
                        let t = lines.next().unwrap_or_default().trim_start_matches([' ', '=', '│', '|']).to_string();
                        ensure!(got.insert(t.clone()), "twice", "{entry}: {t}");
                    }
                    c.note(format!("missing {what}"));
                }
                ensure!(got == want, "missing", "{entry} lacks {want:?} ({what}), reported is {got:?}\n{}", o.text);
                errors |= !want.is_empty() && !pdrive;
            }
        }
    }
    let told = o.text.contains("Arma 3 Tools not found");
    ensure!(told == (works && !has_tool) || damaged.is_some() && !told, "tools", "without tools: {told}\n{}", o.text);
    // ---- what was asked of the tool
    let taken: Vec<(&Addon, &File)> = addons.iter().filter(|a| selected(a)).flat_map(|a| a.files.iter().filter(|f| a.takes(f)).map(move |f| (a, f))).collect();
    let halted = works && (errors || (damaged.is_some() && taken.iter().any(|(_, f)| Some(&f.name) == damaged.as_ref())));
    let runs = works && has_tool && command != "check" && !halted;
    let mut want: Vec<String> = vec![];
    for (a, f) in &taken {
        let (dir, name) = f.name.rsplit_once('/').map_or(("", f.name.as_str()), |(a, b)| (a, b));
        let back = |v: &[&str]| v.iter().filter(|s| !s.is_empty()).copied().collect::<Vec<_>>().join("\\").replace('/', "\\");
        want.push(format!(" -always -silent -maxProcesses=0|{}|{}|{name}|yes", back(&[&a.prefix, dir]), back(&["hemtt_binarize_output", &a.folder(), dir])));
    }
    if !runs {
        want.clear();
    }
    want.sort();
    let mut got: Vec<String> = log
        .lines()
        .map(|l| {
            let v: Vec<&str> = l.split('|').collect();
            v.iter().map(|s| s.trim_end_matches('\\')).collect::<Vec<_>>().join("|")
        })
        .collect();
    got.sort();
    ensure!(got == want, "asked", "the tool is asked for {got:#?}\ninstead of {want:#?}\n{}", o.text);
    // ---- how it ends
    if halted || wrong.is_some() {
        ensure!(o.code.is_some_and(|c| c != 0), "accepted", "ends with {:?}\n{}", o.code, o.text);
        if let (Some(f), true) = (&damaged, halted && !errors) {
            ensure!(o.text.contains(f.as_str()), "not named", "{f} is damaged\n{}", o.text);
        }
        if let (Some(w), false) = (&wrong, halted) {
            ensure!(o.text.contains("BBE3") && o.text.contains(w.as_str()), "not named", "{w} is not binarized\n{}", o.text);
            c.note("tool fails");
        }
        c.note(if damaged.is_some() { "damaged model" } else { "refused" });
        c.nontrivial(true);
        return Ok(());
    }
    ensure!(o.code == Some(0), "refused", "ends with {:?}\n{}", o.code, o.text);
    c.nontrivial(!taken.is_empty());
    if command == "check" {
        return Ok(());
    }
    for a in addons.iter().filter(|a| selected(a)) {
        let t = format!("{}/abe_{}.pbo", if command == "dev" || !a.optional { "addons" } else { "optionals" }, a.name);
        let bytes = std::fs::read(root.0.join(".hemttout").join(command).join(&t)).map_err(|e| Fail::new("not built", format!("{t}: {e}")))?;
        let want: BTreeMap<String, Want> = a
            .files
            .iter()
            .map(|f| {
                if f.name.ends_with(".rvmat") {
                    return (f.name.clone(), Want::Rap(vec![Entry::Value("a".into(), Val::I32(1))]));
                }
                let data = if runs && a.takes(f) { [b"BIN:", &f.data[..]].concat() } else { f.data.clone() };
                (f.name.clone(), Want::Raw(data))
            })
            .collect();
        let props = [("prefix", a.prefix.as_str()), ("version", "1.2.3")].map(|(a, b)| (a.to_string(), b.to_string()));
        check_pbo(&t, &bytes, &want, &props.into_iter().collect())?;
    }
    c.note_if(runs && !taken.is_empty(), "binarized");
    c.note(format!("{tools:?}"));
    if addons.iter().any(|a| addons.iter().any(|b| b.prefix.starts_with(&format!("{}\\", a.prefix)))) {
        c.note("nested prefixes");
    }
    if no_addons_folder && o.code != Some(0) {
        fail!("no addons", "{}", o.text);
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E11",
        level: "exploration",
        rule: "a file has to be binarized, or the build is refused for a file",
        facets: vec![Facet::new("binarize", 800, 20_000, binarize)],
        probes: vec![],
        assumptions: &["a stand-in takes the place of the game's tool, which runs on Windows only"],
    }]
}
