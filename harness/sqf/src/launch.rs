//! `hemtt launch` with a game and a Steam that only record what they are started with, and `hemtt localization`.
use crate::e2e::{hemtt, hemtt_with, tree, Node, Root};
use std::collections::{BTreeMap, BTreeSet};
use vpc::{ensure, Case, Facet, Property, D, R};

// ---- starting the game ----

const DLC: [(&str, &[&str], &str); 8] = [
    ("contact", &["contact", "Contact"], "1021790"),
    ("gm", &["gm", "Global Mobilization", "GM"], "1042220"),
    ("vn", &["vn", "S.O.G. Prairie Fire", "Prairie Fire"], "1227700"),
    ("csla", &["csla", "CSLA Iron Curtain"], "1294440"),
    ("ws", &["ws", "Western Sahara", "western sahara"], "1681170"),
    ("spe", &["spe", "Spearhead 1944"], "1175380"),
    ("rf", &["rf", "Reaction Forces"], "2647760"),
    ("ef", &["ef", "Expeditionary Forces"], "2647830"),
];
const MODS: [&str; 5] = ["450814997", "463939057", "1", "99", "123456789"];
const PRESETS: [&str; 4] = ["main", "v1.2", "é x", "Main"];
const MISSIONS: [&str; 5] = ["test.VR", "a b.Stratis", "tests/x.VR", "tests/x.VR/mission.sqm", "gone.VR"];

/// One configuration as written down
#[derive(Clone, Debug, Default)]
struct Conf {
    workshop: Vec<&'static str>,
    dlc: Vec<(usize, &'static str)>,
    presets: Vec<&'static str>,
    optionals: Vec<&'static str>,
    parameters: Vec<&'static str>,
    mission: Option<String>,
    patching: Option<bool>,
    instances: Option<u8>,
    rapify: Option<bool>,
    /// needs the tools, which are not there: nothing changes
    binarize: Option<bool>,
}
fn some<T: Clone>(d: &mut D, from: &[T], most: usize) -> Vec<T> {
    let n = if d.bool() { 0 } else { d.usize(0, most) };
    (0..n).map(|_| d.pick(from).clone()).collect()
}
impl Conf {
    fn new(d: &mut D, root: &str, presets: &[&'static str]) -> Self {
        // what is named but not there is rare
        let known = if presets.is_empty() || d.chance(1, 25) { &PRESETS[..] } else { presets };
        let presets = if !presets.is_empty() || d.chance(1, 25) { some(d, known, 2) } else { vec![] };
        let mods = if d.chance(1, 25) { &MODS[..] } else { &MODS[..3] };
        let most = if d.chance(1, 8) { 5 } else { 4 };
        let mission = d.chance(1, 4).then(|| if d.chance(1, 10) { format!("{root}/tests/x.VR") } else { (*d.pick(&MISSIONS[..most])).to_string() });
        Self {
            workshop: some(d, mods, 3),
            dlc: some(d, &[0usize, 1, 2, 3, 4, 5, 6, 7], 3).into_iter().map(|i| (i, *d.pick(DLC[i].1))).collect(),
            presets,
            optionals: some(d, &["opt_a", "opt_b"], 2),
            parameters: some(d, &["-world=empty", "-window", "-x=a b", "-name=é", "-a=\"q\""], 3),
            mission,
            patching: d.chance(1, 3).then(|| d.bool()),
            instances: d.chance(1, 4).then(|| d.weighted(&[1, 6, 4, 2]) as u8),
            rapify: d.chance(1, 5).then(|| d.bool()),
            binarize: d.chance(1, 6).then(|| d.bool()),
        }
    }
    fn over(&self, o: &Self) -> Self {
        let both = |a: &[&'static str], b: &[&'static str]| [a, b].concat();
        Self {
            workshop: both(&self.workshop, &o.workshop),
            dlc: [self.dlc.clone(), o.dlc.clone()].concat(),
            presets: both(&self.presets, &o.presets),
            optionals: both(&self.optionals, &o.optionals),
            parameters: both(&self.parameters, &o.parameters),
            mission: o.mission.clone().or_else(|| self.mission.clone()),
            patching: o.patching.or(self.patching),
            instances: o.instances.or(self.instances),
            rapify: o.rapify.or(self.rapify),
            binarize: o.binarize.or(self.binarize),
        }
    }
    fn toml(&self, head: &str, extends: Option<&str>) -> String {
        let q = |v: &[&str]| v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ");
        let mut s = format!("[{head}]\n");
        for (k, v) in [("workshop", &self.workshop), ("presets", &self.presets), ("optionals", &self.optionals), ("parameters", &self.parameters), ("dlc", &self.dlc.iter().map(|x| x.1).collect())] {
            if !v.is_empty() {
                s.push_str(&format!("{k} = [{}]\n", q(v)));
            }
        }
        if let Some(m) = &self.mission {
            s.push_str(&format!("mission = {m:?}\n"));
        }
        if let Some(v) = self.patching {
            s.push_str(&format!("file_patching = {v}\n"));
        }
        if let Some(v) = self.instances {
            s.push_str(&format!("instances = {v}\n"));
        }
        if let Some(v) = self.rapify {
            s.push_str(&format!("rapify = {v}\n"));
        }
        if let Some(v) = self.binarize {
            s.push_str(&format!("binarize = {v}\n"));
        }
        if let Some(e) = extends {
            s.push_str(&format!("extends = {e:?}\n"));
        }
        s
    }
}

/// What a fake program does: put down what it is given, all at once
const RECORD: &str = "f=\"$RECORD/.$$\"; for a in \"$0\" \"$@\"; do printf '%s\\0' \"$a\" >> \"$f\"; done; mv \"$f\" \"$RECORD/r$$\"\n";

fn script(root: &Root, name: &str, text: &str) {
    use std::os::unix::fs::PermissionsExt;
    root.put(&format!("bin/{name}"), format!("#!/bin/sh\n{text}").as_bytes());
    std::fs::set_permissions(root.0.join("bin").join(name), std::fs::Permissions::from_mode(0o755)).expect("script");
}
fn recorded(root: &Root) -> Vec<Vec<String>> {
    let mut v = vec![];
    for e in std::fs::read_dir(root.0.join("record")).expect("record").flatten() {
        if e.file_name().to_string_lossy().starts_with('r') {
            let b = std::fs::read(e.path()).expect("record");
            v.push(String::from_utf8_lossy(&b).split_terminator('\0').map(String::from).collect());
        }
    }
    v
}

fn launch(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let proj = root.0.join("my proj").display().to_string();
    // Steam and the game
    let other = d.bool();
    let steam = root.0.join("home/.local/share/Steam");
    let lib = if other { root.0.join("games") } else { steam.clone() };
    let installed = !d.chance(1, 20);
    let game = if installed { "\t\t\t\"107410\"\t\t\"1\"\n" } else { "" };
    let mut vdf = format!("\"libraryfolders\"\n{{\n\t\"0\"\n\t{{\n\t\t\"path\"\t\t\"{}\"\n\t\t\"apps\"\n\t\t{{\n{}\t\t}}\n\t}}\n", steam.display(), if other { "" } else { game });
    if other {
        vdf.push_str(&format!("\t\"1\"\n\t{{\n\t\t\"path\"\t\t\"{}\"\n\t\t\"apps\"\n\t\t{{\n{game}\t\t}}\n\t}}\n", lib.display()));
    }
    vdf.push_str("}\n");
    root.put("home/.local/share/Steam/steamapps/libraryfolders.vdf", vdf.as_bytes());
    std::fs::create_dir_all(lib.join("steamapps/common/Arma 3")).expect("game");
    if installed {
        std::fs::write(lib.join("steamapps/appmanifest_107410.acf"), "\"AppState\"\n{\n\t\"appid\"\t\t\"107410\"\n\t\"Universe\"\t\t\"1\"\n\t\"name\"\t\t\"Arma 3\"\n\t\"StateFlags\"\t\t\"4\"\n\t\"installdir\"\t\t\"Arma 3\"\n}\n").expect("manifest");
    }
    let arma = lib.join("steamapps/common/Arma 3");
    let content = lib.join("steamapps/workshop/content/107410");
    let subscribed = d.chance(19, 20);
    if subscribed {
        for m in &MODS[..3] {
            std::fs::create_dir_all(content.join(m)).expect("mod");
        }
    }
    std::fs::create_dir_all(root.0.join("record")).expect("record");
    script(&root, "steam", RECORD);
    let flatpak = d.below(3);
    if flatpak > 0 {
        let line = if flatpak == 2 { "echo 'Steam\tcom.valvesoftware.Steam\t1.0\tstable\tsystem'" } else { "echo 'GIMP\torg.gimp.GIMP\t2\tstable\tsystem'" };
        script(&root, "flatpak", &format!("case \"$1\" in list) {line} ;; override) ;; *) {} ;; esac\n", RECORD.trim()));
    }
    // the project
    let prefix = d.chance(24, 25);
    let mut toml = format!("name = \"Mod\"\nprefix = \"abe\"\n{}[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n", if prefix { "mainprefix = \"z\"\n" } else { "" });
    for a in ["addons/main", "addons/ui", "optionals/opt_a", "optionals/opt_b"] {
        let n = a.split('/').nth(1).unwrap();
        root.put(&format!("my proj/{a}/$PBOPREFIX$"), format!("z\\abe\\addons\\{n}").as_bytes());
        root.put(&format!("my proj/{a}/config.cpp"), format!("class CfgPatches {{ class {n} {{ units[] = {{}}; weapons[] = {{}}; requiredVersion = 2; requiredAddons[] = {{}}; }}; }};\n").as_bytes());
    }
    let own = d.chance(1, 4).then(|| *d.pick(&MODS));
    if let Some(id) = own {
        root.put("my proj/meta.cpp", format!("protocol = 1;\npublishedid ={}{id};\nname = \"x\";\n", if d.bool() { " " } else { "" }).as_bytes());
    }
    root.put("my proj/tests/x.VR/mission.sqm", b"");
    for m in &MISSIONS[..2] {
        root.put(&format!("my proj/.hemtt/missions/{m}/mission.sqm"), b"");
    }
    let mut presets: BTreeMap<&str, (Vec<&str>, Vec<usize>)> = BTreeMap::new();
    for p in PRESETS {
        if d.bool() {
            let mods = some(d, &MODS[..3], 4);
            let dlc = some(d, &[0usize, 1, 2, 3, 4, 5, 6, 7], 3);
            let mut html = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<html>\n<body><table>\n");
            for m in &mods {
                html.push_str(&format!("<tr data-type=\"ModContainer\"><td data-type=\"DisplayName\">M</td><td><a href=\"http{}://steamcommunity.com/sharedfiles/filedetails/?id={m}\" data-type=\"Link\">link</a></td></tr>\n", if d.bool() { "s" } else { "" }));
            }
            for x in &dlc {
                html.push_str(&format!("<tr data-type=\"DlcContainer\"><td><a href=\"https://store.steampowered.com/app/{}\" data-type=\"Link\">dlc</a></td></tr>\n", DLC[*x].2));
            }
            if d.chance(1, 4) {
                html.push_str("<tr><td><a href=\"https://store.steampowered.com/app/107410\">unknown</a></td></tr>\n");
            }
            root.put(&format!("my proj/.hemtt/presets/{p}.html"), html.as_bytes());
            presets.insert(p, (mods, dlc));
        }
    }
    let known: Vec<&'static str> = PRESETS.iter().filter(|p| presets.contains_key(**p)).copied().collect();
    let file = d.bool();
    let mut confs: BTreeMap<&str, (Conf, Option<&str>)> = BTreeMap::new();
    let mut text = String::new();
    for n in ["default", "vn", "a-b"] {
        if d.chance(2, 3) {
            confs.insert(n, (Conf::new(d, &proj, &known), None));
        }
    }
    let names: Vec<&str> = confs.keys().copied().collect();
    for n in &names {
        let base = *d.pick(&names);
        if base != *n && d.chance(1, 3) && confs[base].1.is_none() && !confs.values().any(|v| v.1 == Some(n)) {
            confs.get_mut(n).unwrap().1 = Some(base);
        }
        let (conf, ext) = &confs[n];
        text.push_str(&conf.toml(&if file { (*n).to_string() } else { format!("hemtt.launch.{n}") }, *ext));
    }
    if file && !text.is_empty() {
        root.put("my proj/.hemtt/launch.toml", text.as_bytes());
    } else {
        toml.push_str(&text);
    }
    root.put("my proj/.hemtt/project.toml", toml.as_bytes());
    // the command
    let mut args = vec!["launch".to_string()];
    let asked = match d.below(3) {
        0 => vec![],
        _ if names.is_empty() || d.chance(1, 20) => vec!["nothing"],
        _ => some(d, &names, 3),
    };
    args.extend(asked.iter().map(|s| (*s).to_string()));
    let cli_instances = d.chance(1, 6).then(|| d.below(4) as u8);
    if let Some(n) = cli_instances {
        args.extend(["-i".into(), n.to_string()]);
    }
    let cli_patching = d.chance(1, 6);
    if cli_patching {
        args.push((*d.pick(&["-F", "--no-filepatching"])).into());
    }
    let cli_optional = d.chance(1, 6);
    if cli_optional {
        args.extend(["-o".into(), "opt_b".into()]);
    }
    // an earlier build, or a link that leads nowhere
    let quick = d.chance(1, 6);
    let ready = quick && d.chance(2, 3);
    let out = root.0.join("my proj/.hemttout/dev");
    if ready {
        let o = hemtt(&root.0.join("my proj"), &["dev"])?;
        ensure!(o.code == Some(0), "harness", "{}", o.text);
    }
    let link = arma.join("z/abe");
    let stale = !quick && d.chance(1, 8);
    if ready || stale {
        std::fs::create_dir_all(arma.join("z")).expect("link");
        std::os::unix::fs::symlink(if stale { root.0.join("gone") } else { out.clone() }, &link).expect("link");
    }
    if quick {
        args.push("-Q".into());
    }
    let pass: Vec<&str> = some(d, &["-world=vr", "-b c", "--", "-mod=x", "é"], 3);
    if !pass.is_empty() {
        args.push("--".into());
        args.extend(pass.iter().map(|s| (*s).to_string()));
    }
    c.input(&format!("{args:?} mainprefix {prefix} installed {installed} subscribed {subscribed} flatpak {flatpak} own {own:?} ready {ready} stale {stale} presets {presets:?}\n{text}").replace(&proj, "PROJECT"));
    // the model
    let mut want = Conf::default();
    let mut wrong = None;
    let list = if asked.is_empty() { vec!["default"] } else { asked.clone() };
    for n in &list {
        match confs.get(n) {
            Some((conf, base)) => {
                want = want.over(&base.map_or_else(|| conf.clone(), |b| confs[b].0.over(conf)));
            }
            None if asked.is_empty() => {}
            None => wrong = Some("configuration"),
        }
    }
    let mut mods: BTreeSet<String> = want.workshop.iter().map(|s| (*s).to_string()).collect();
    let mut dlc: BTreeSet<usize> = want.dlc.iter().map(|x| x.0).collect();
    for p in &want.presets {
        match presets.get(p) {
            Some((m, x)) => {
                mods.extend(m.iter().map(|s| (*s).to_string()));
                dlc.extend(x);
            }
            None => wrong = wrong.or(Some("preset")),
        }
    }
    if let Some(id) = own {
        mods.remove(id);
    }
    let mission = want.mission.as_ref().map(|m| {
        [format!("{proj}/{m}"), format!("{proj}/{m}/mission.sqm"), format!("{proj}/.hemtt/missions/{m}/mission.sqm")].into_iter().find(|p| p.ends_with("/mission.sqm") && std::path::Path::new(p).is_file())
    });
    let missing = mods.iter().any(|m| !content.join(m).is_dir());
    let absolute = want.mission.as_ref().is_some_and(|m| m.starts_with('/'));
    let wrong = if !prefix {
        Some("main prefix")
    } else if wrong == Some("configuration") {
        wrong
    } else if !installed {
        Some("game")
    } else if wrong.is_some() {
        wrong
    } else if quick && !ready {
        Some("build")
    } else if !subscribed {
        Some("workshop of the game")
    } else if missing {
        Some("mod")
    } else if absolute || mission == Some(None) {
        Some("mission")
    } else {
        None
    };
    let instances = cli_instances.or(want.instances).unwrap_or(1);
    c.nontrivial(wrong.is_none() && !(mods.is_empty() && dlc.is_empty()));
    c.note_if(wrong.is_some(), wrong.unwrap_or(""));
    c.note_if(instances > 1, "several instances");
    // run
    let path = format!("{}:/usr/bin:/bin", root.0.join("bin").display());
    let env = [("PATH", path), ("HOME", root.0.join("home").display().to_string()), ("RECORD", root.0.join("record").display().to_string())];
    let before = tree(&root.0.join("my proj/addons"));
    let o = hemtt_with(&root.0.join("my proj"), &args.iter().map(String::as_str).collect::<Vec<_>>(), &env)?;
    let runs = if wrong.is_some() { 0 } else { instances as usize };
    for i in 0..200 {
        if recorded(&root).len() >= runs && i > 1 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(if i < 20 { 5 } else { 50 }));
    }
    let got = recorded(&root);
    if let Some(w) = wrong {
        ensure!(o.code == Some(1), "accepted", "the {w} is not there, but the command ends with {:?}\n{}", o.code, o.text);
        ensure!(got.is_empty(), "started", "the {w} is not there, but the game is started\n{}", o.text);
        return Ok(());
    }
    ensure!(o.code == Some(0), "refused", "{:?}\n{}", o.code, o.text);
    ensure!(got.len() == runs, "instances", "{} instead of {runs} instances\n{}", got.len(), o.text);
    ensure!(before == tree(&root.0.join("my proj/addons")), "sources", "the sources are changed");
    let patching = want.patching.unwrap_or(true) && !cli_patching;
    for run in got {
        let mut at = run.iter().map(String::as_str);
        let exe = at.next().unwrap_or("").rsplit('/').next().unwrap_or("");
        ensure!(exe == if flatpak == 2 { "flatpak" } else { "steam" }, "steam", "started with {run:?}");
        let head: Vec<&str> = if flatpak == 2 { vec!["run", "com.valvesoftware.Steam", "-applaunch", "107410", "-nolauncher"] } else { vec!["-applaunch", "107410", "-nolauncher"] };
        let rest: Vec<&str> = at.collect();
        ensure!(rest.starts_with(&head), "steam", "started with {run:?}");
        let rest = &rest[head.len()..];
        let mut loads: Vec<String> = dlc.iter().map(|i| DLC[*i].0.to_string()).collect();
        loads.extend(mods.iter().map(|m| format!("Z:{}", content.join(m).display())));
        loads.push(format!("Z:{}", out.display()));
        loads.sort();
        let mut have: Vec<String> = rest.iter().filter_map(|a| a.strip_prefix("-mod=\"")).map(|a| a.trim_end_matches('"').to_string()).collect();
        have.sort();
        ensure!(have == loads, "mods", "loads {have:?} instead of {loads:?}");
        let tail: Vec<&str> = rest.iter().filter(|a| !a.starts_with("-mod=\"")).copied().collect();
        // what belongs to the configuration may come in any order, what is passed on comes behind it
        let mut end: Vec<String> = pass.iter().map(|s| (*s).to_string()).collect();
        if let Some(Some(m)) = &mission {
            end.push(format!("\"{m}\""));
        }
        if patching {
            end.push("-filePatching".into());
        }
        ensure!(tail.len() >= end.len() && tail[tail.len() - end.len()..] == end, "arguments", "started with {tail:?}, which does not end in {end:?}");
        let have: BTreeSet<&str> = tail[..tail.len() - end.len()].iter().copied().collect();
        let wanted: BTreeSet<&str> = ["-skipIntro", "-noSplash", "-showScriptErrors", "-debug"].into_iter().chain(want.parameters.iter().copied()).collect();
        ensure!(have == wanted, "arguments", "started with {have:?} instead of {wanted:?}");
    }
    // what is loaded
    let mut pbos: BTreeSet<String> = ["addons/abe_main.pbo", "addons/abe_ui.pbo"].iter().map(|s| (*s).to_string()).collect();
    if !ready {
        for x in ["opt_a", "opt_b"] {
            if want.optionals.contains(&x) || cli_optional && x == "opt_b" {
                // a development build puts all in one folder
                pbos.insert(format!("addons/abe_{x}.pbo"));
            }
        }
    }
    let got: BTreeSet<String> = tree(&out).into_iter().filter(|(k, v)| k.ends_with(".pbo") && matches!(v, Node::File(_))).map(|(k, _)| k).collect();
    ensure!(got == pbos, "build", "holds {got:?} instead of {pbos:?}");
    ensure!(link.canonicalize().ok() == out.canonicalize().ok(), "link", "the link leads to {:?}", link.read_link());
    if !ready {
        let text = std::fs::read(out.join("addons/abe_main.pbo")).unwrap_or_default();
        let has = |s: &[u8]| text.windows(s.len()).any(|w| w == s);
        ensure!(has(b"config.bin\0") == want.rapify.unwrap_or(true), "rapify", "rapify is {:?}", want.rapify);
    }
    Ok(())
}

// ---- stringtables ----

const LANGUAGES: [&str; 24] = [
    "Original", "English", "Czech", "French", "Spanish", "Italian", "Polish", "Portuguese", "Russian", "German", "Korean", "Japanese", "Chinese", "Chinesesimp", "Turkish", "Swedish", "Slovak", "Serbocroatian", "Norwegian", "Icelandic", "Hungarian", "Greek", "Finnish", "Dutch",
];
type Texts = Vec<(usize, String)>;
#[derive(Clone, Default)]
struct Package {
    name: String,
    keys: Vec<(String, Texts)>,
    inner: Vec<Package>,
}
fn fresh(d: &mut D, used: &mut BTreeSet<String>) -> String {
    let mut n = (*d.pick(&["STR_b", "STR_a", "str_A", "STR_B", "STR_ab", "é", "Main"])).to_string();
    while used.contains(&n) {
        n.push(*d.pick(&['_', '1', 'a', 'A']));
    }
    used.insert(n.clone());
    n
}
fn package(d: &mut D, depth: u32, used: &mut BTreeSet<String>, full: &[usize]) -> Package {
    let mut keys = BTreeSet::new();
    let mut inner = BTreeSet::new();
    Package {
        name: fresh(d, used),
        keys: (0..d.usize(0, 4))
            .map(|_| {
                let mut l: Vec<usize> = full.iter().copied().filter(|_| d.chance(5, 6)).collect();
                for _ in 0..d.below(2) {
                    l.push(d.usize(0, 23));
                }
                d.shuffle(&mut l);
                let mut seen = BTreeSet::new();
                l.retain(|x| seen.insert(*x));
                (fresh(d, &mut keys), l.into_iter().map(|x| (x, (*d.pick(&["Hello", "a b", "é", "%1 x", "1.5"])).to_string())).collect())
            })
            .collect(),
        inner: if depth > 0 && d.chance(1, 3) { (0..d.usize(1, 3)).map(|_| package(d, depth - 1, &mut inner, full)).collect() } else { vec![] },
    }
}
impl Package {
    fn sort(&mut self) {
        self.keys.sort_by(|a, b| a.0.cmp(&b.0));
        self.inner.sort_by(|a, b| a.name.cmp(&b.name));
        self.inner.iter_mut().for_each(Self::sort);
    }
    fn languages(&mut self) {
        self.keys.iter_mut().for_each(|k| k.1.sort());
        self.inner.iter_mut().for_each(Self::languages);
    }
    fn write(&self, tag: &str, out: &mut String) {
        out.push_str(&format!("<{tag} name=\"{}\">\n", self.name));
        for (id, texts) in &self.keys {
            out.push_str(&format!("  <Key ID=\"{id}\">\n"));
            for (l, t) in texts {
                out.push_str(&format!("    <{0}>{t}</{0}>\n", LANGUAGES[*l]));
            }
            out.push_str("  </Key>\n");
        }
        self.inner.iter().for_each(|p| p.write("Container", out));
        out.push_str(&format!("</{tag}>\n"));
    }
    fn count(&self, total: &mut u32, by: &mut [u32; 24]) {
        for (_, texts) in &self.keys {
            *total += 1;
            texts.iter().for_each(|t| by[t.0] += 1);
        }
        self.inner.iter().for_each(|p| p.count(total, by));
    }
}
fn document(p: &[Package]) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"Mod\">\n");
    p.iter().for_each(|p| p.write("Package", &mut s));
    s + "</Project>\n"
}
/// Without what is only layout
fn bare(s: &str) -> String {
    let s: String = s.lines().map(str::trim).collect();
    let at = s.find("<Project").unwrap_or(0);
    // an element without content can be written in two ways
    let mut s = s[at..].to_string();
    for t in ["Key", "Container", "Package"] {
        s = s.replace(&format!("></{t}>"), "/>");
    }
    s
}
fn tables(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    root.put(".hemtt/project.toml", b"name = \"Mod\"\nprefix = \"abe\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n");
    let mut files: BTreeMap<String, Vec<Package>> = BTreeMap::new();
    let full = some(d, &(0..24).collect::<Vec<usize>>(), 4);
    let mut addons = BTreeSet::new();
    for _ in 0..d.usize(1, 5) {
        addons.insert(*d.pick(&["addons/main", "addons/ui", "addons/Zeta", "addons/a_b", "addons/x.y", "optionals/opt"]));
    }
    addons.insert("addons/main");
    for a in &addons {
        let n = a.split('/').nth(1).unwrap();
        root.put(&format!("{a}/$PBOPREFIX$"), format!("z\\abe\\addons\\{n}").as_bytes());
        root.put(&format!("{a}/config.cpp"), b"class CfgPatches {};\n");
        for f in ["stringtable.xml", "sub/stringtable.xml", "sub/other.xml"] {
            if d.chance(1, if f == "stringtable.xml" { 1 } else { 6 }) {
                let mut used = BTreeSet::new();
                files.insert(format!("{a}/{f}"), (0..d.usize(1, 4)).map(|_| package(d, 2, &mut used, &full)).collect());
            }
        }
    }
    for (f, p) in &files {
        root.put(f, document(p).as_bytes());
    }
    c.input(&files.iter().map(|(f, p)| format!("{f}:{}", bare(&document(p)))).collect::<Vec<_>>().join("\n"));
    // how much is translated
    let mut total = 0;
    let mut by = [0; 24];
    let mut missing: Vec<BTreeSet<&str>> = vec![BTreeSet::new(); 24];
    for (f, p) in &files {
        let Some(a) = addons.iter().find(|a| *f == format!("{a}/stringtable.xml")) else { continue };
        let (mut t, mut b) = (0, [0; 24]);
        p.iter().for_each(|p| p.count(&mut t, &mut b));
        for i in 0..24 {
            if b[i] != t {
                missing[i].insert(a);
            }
            by[i] += b[i];
        }
        total += t;
    }
    let before = tree(&root.0);
    let o = hemtt(&root.0, &["localization", "coverage", "--format", *d.pick(&["json", "pretty-json"])])?;
    ensure!(o.code == Some(0), "refused", "{:?}\n{}", o.code, o.text);
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    // the log is around it
    let from = out.find("\n[").map_or(0, |x| x + 1);
    let rows: Vec<serde_json::Value> = match serde_json::Deserializer::from_str(&out[from..]).into_iter().next() {
        Some(Ok(r)) => r,
        e => vpc::fail!("json", "{e:?}: {out}"),
    };
    let wanted: Vec<usize> = (0..24).filter(|i| by[*i] > 0).collect();
    ensure!(rows.len() == wanted.len(), "languages", "{} instead of {} languages: {out}", rows.len(), wanted.len());
    for (r, i) in rows.iter().zip(&wanted) {
        ensure!(r["language"] == LANGUAGES[*i], "languages", "{r} instead of {}", LANGUAGES[*i]);
        let p = f64::from(by[*i]) / f64::from(total) * 100.0;
        ensure!((r["percent"].as_f64().unwrap_or(-1.0) - p).abs() < 1e-9, "percent", "{r} instead of {p}");
        let mut have: Vec<&str> = r["missing"].as_array().map(|v| v.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
        have.sort_unstable();
        ensure!(have == missing[*i].iter().copied().collect::<Vec<_>>(), "missing", "{} is said to be missing in {have:?} instead of {:?}", LANGUAGES[*i], missing[*i]);
    }
    let o = hemtt(&root.0, &["localization", "coverage", "--format", *d.pick(&["ascii", "markdown"])])?;
    for i in &wanted {
        let p = format!("{:.2}%", f64::from(by[*i]) / f64::from(total) * 100.0);
        ensure!(o.text.lines().any(|l| l.contains(LANGUAGES[*i]) && l.contains(&p)), "table", "{} {p} is not in the table\n{}", LANGUAGES[*i], o.text);
    }
    let quiet = |t: BTreeMap<String, Node>| t.into_iter().filter(|(k, _)| !k.starts_with(".hemttout")).collect::<BTreeMap<_, _>>();
    ensure!(quiet(tree(&root.0)) == quiet(before.clone()), "coverage writes", "counting changes the project");
    // sorting
    let only = d.chance(1, 3);
    let o = hemtt(&root.0, if only { &["localization", "sort", "--only-lang"] } else { &["localization", "sort"] })?;
    ensure!(o.code == Some(0), "refused", "{:?}\n{}", o.code, o.text);
    let after = quiet(tree(&root.0));
    let mut moved = false;
    for (f, n) in &quiet(before) {
        let now = after.get(f);
        if !f.ends_with("/stringtable.xml") {
            ensure!(now == Some(n), "other file", "{f} is changed");
            continue;
        }
        let mut p = files[f].clone();
        p.iter_mut().for_each(Package::languages);
        if !only {
            p.sort_by(|a, b| a.name.cmp(&b.name));
            p.iter_mut().for_each(Package::sort);
        }
        let want = bare(&document(&p));
        moved |= want != bare(&document(&files[f]));
        let Some(Node::File(b)) = now else { vpc::fail!("removed", "{f} is gone") };
        let got = bare(&String::from_utf8_lossy(b));
        ensure!(got == want, "sorted", "{f} is\n{got} instead of\n{want}");
    }
    ensure!(after.len() == quiet(tree(&root.0)).len(), "files", "sorting leaves other files");
    hemtt(&root.0, if only { &["localization", "sort", "--only-lang"] } else { &["localization", "sort"] })?;
    ensure!(quiet(tree(&root.0)) == after, "again", "sorting again changes something");
    c.nontrivial(moved);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, facets| Property { id, level: "exploration", rule, facets, probes: vec![], assumptions: &["Steam and the game are stand-ins that record their arguments"] };
    vec![
        p("E06", "sorting moves something", vec![Facet::new("tables", 1_000, 40_000, tables)]),
        p("E07", "the game is started with at least one mod or DLC besides the project", vec![Facet::new("launch", 1_200, 40_000, launch)]),
    ]
}
