//! Files of the game: found through a P drive or extracted from the installed game.
use crate::project::Folder;
use hemtt_common::config::PDriveOption;
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};
use std::collections::BTreeMap;
use std::io::Read;
use std::path::Path;
use vpc::{ensure, fail, Case, Facet, Fail, Property, D, R};

const FOLDERS: [&str; 14] =
    ["Addons", "AoW/Addons", "Argo/Addons", "Contact/Addons", "Curator/Addons", "Enoch/Addons", "Expansion/Addons", "Heli/Addons", "Jets/Addons", "Kart/Addons", "Mark/Addons", "Orange/Addons", "Tacops/Addons", "Tank/Addons"];

/// The environment that decides where the game is
struct Env {
    old: Vec<(&'static str, Option<std::ffi::OsString>)>,
}
impl Env {
    fn new(home: &Path, temp: &Path) -> Self {
        let names = ["HOME", "TMPDIR", "XDG_CONFIG_HOME", "XDG_DOCUMENTS_DIR", "SNAP_USER_DATA", "XDG_DATA_HOME"];
        let old = names.iter().map(|n| (*n, std::env::var_os(n))).collect();
        for n in names {
            std::env::remove_var(n);
        }
        std::env::set_var("HOME", home);
        std::env::set_var("TMPDIR", temp);
        Self { old }
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        for (n, v) in &self.old {
            match v {
                Some(v) => std::env::set_var(n, v),
                None => std::env::remove_var(n),
            }
        }
    }
}

struct Game {
    /// name of the addon, then the names and data of its files
    addons: Vec<(String, Vec<(String, Vec<u8>)>)>,
    /// the P drive is a folder: exact paths
    drive: Option<BTreeMap<String, Vec<u8>>>,
    installed: bool,
}
fn name(d: &mut D) -> String {
    (*d.pick(&["script.hpp", "Common.hpp", "tex_co.paa", "a.rvmat", "definecommon.inc", "noext", "x y.sqf", "é.hpp"])).to_string()
}
fn folder(d: &mut D) -> String {
    (*d.pick(&["data", "Data", "hpp", "ui", "functions", "data.x"])).to_string()
}
fn case(d: &mut D, s: &str) -> String {
    match d.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        2 => s.chars().map(|c| if d.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}
fn install(d: &mut D, c: &mut Case, dir: &Folder) -> Game {
    let mut g = Game { addons: vec![], drive: None, installed: false };
    let mut shown = String::new();
    let mut put = |p: &str, b: &[u8]| {
        let p = dir.0.join(p);
        std::fs::create_dir_all(p.parent().expect("parent")).expect("folder");
        std::fs::write(p, b).expect("write");
    };
    // the folder of documents
    match d.below(4) {
        0 => {}
        n => {
            put("home/.config/user-dirs.dirs", b"XDG_DOCUMENTS_DIR=\"$HOME/Docs\"\n");
            put("home/Docs/x.txt", b"x");
            shown.push_str("documents folder\n");
            if n == 3 && d.bool() {
                put("home/Docs/Arma 3 Projects/other/x.txt", b"x");
                if d.bool() {
                    let mut files = BTreeMap::new();
                    for i in 0..d.usize(1, 4) {
                        let p = format!("a3/{}/{}", folder(d), name(d));
                        let data = format!("drive {i} {p}").into_bytes();
                        put(&format!("home/Docs/Arma 3 Projects/{p}"), &data);
                        shown.push_str(&format!("drive {p}\n"));
                        files.insert(p, data);
                    }
                    g.drive = Some(files);
                }
            }
        }
    }
    if d.chance(1, 10) {
        c.input(&format!("{shown}no game"));
        return g;
    }
    let steam = dir.0.join("home/.local/share/Steam");
    let other = dir.0.join("library");
    let lib = d.bool();
    let path = if lib { &other } else { &steam };
    let tools = d.chance(1, 4);
    let mut apps = vec![("107410", "Arma 3")];
    if tools {
        apps.push(("233800", "Arma 3 Tools"));
    }
    let mut vdf = format!("\"libraryfolders\"\n{{\n\t\"0\"\n\t{{\n\t\t\"path\"\t\t\"{}\"\n\t\t\"apps\"\n\t\t{{\n", steam.display());
    let list: String = apps.iter().map(|a| format!("\t\t\t\"{}\"\t\t\"1\"\n", a.0)).collect();
    if !lib {
        vdf.push_str(&list);
    }
    vdf.push_str("\t\t}\n\t}\n");
    if lib {
        vdf.push_str(&format!("\t\"1\"\n\t{{\n\t\t\"path\"\t\t\"{}\"\n\t\t\"apps\"\n\t\t{{\n{list}\t\t}}\n\t}}\n", other.display()));
    }
    vdf.push_str("}\n");
    put("home/.local/share/Steam/steamapps/libraryfolders.vdf", vdf.as_bytes());
    std::fs::create_dir_all(path.join("steamapps/common")).expect("library");
    for (id, n) in apps {
        let m = format!("\"AppState\"\n{{\n\t\"appid\"\t\t\"{id}\"\n\t\"Universe\"\t\t\"1\"\n\t\"name\"\t\t\"{n}\"\n\t\"StateFlags\"\t\t\"4\"\n\t\"installdir\"\t\t\"{n}\"\n}}\n");
        std::fs::write(path.join(format!("steamapps/appmanifest_{id}.acf")), m).expect("manifest");
        std::fs::create_dir_all(path.join("steamapps/common").join(n)).expect("app");
    }
    let root = path.join("steamapps/common/Arma 3");
    if tools && g.drive.is_none() {
        shown.push_str("tools\n");
        let ini = path.join("steamapps/common/Arma 3 Tools/settings.ini");
        match d.below(3) {
            0 => {}
            1 => {
                // a drive that is not to be used
                put("old drive/a3/data/script.hpp", b"old");
                std::fs::write(ini, format!("[General]\nP_DriveUser=0\nP_DrivePath={}\n", dir.0.join("old drive").display())).expect("ini");
            }
            _ => {
                std::fs::write(ini, format!("[General]\nP_DriveUser=1\nP_DrivePath={}\n", dir.0.join("work drive").display())).expect("ini");
                shown.push_str("tools know a drive\n");
                if d.chance(2, 3) {
                    let p = format!("a3/{}/{}", folder(d), name(d));
                    let data = format!("tools {p}").into_bytes();
                    put(&format!("work drive/{p}"), &data);
                    shown.push_str(&format!("tools drive {p}\n"));
                    g.drive = Some([(p, data)].into());
                }
            }
        }
    }
    g.installed = true;
    let keep = d.below(4);
    for f in FOLDERS {
        // not everyone has every expansion
        if f != "Addons" && keep != 0 && d.chance(1, 2) {
            continue;
        }
        std::fs::create_dir_all(root.join(f)).expect("addons");
        if f != "Addons" && d.chance(3, 4) {
            continue;
        }
        for _ in 0..d.usize(0, 3) {
            let n = (*d.pick(&["data_f", "Ui_F", "a3_hpp", "functions_f", "map_é", "air_f_exp.v1", "weapons_f", "Sounds_F"])).to_string();
            if g.addons.iter().any(|a| a.0.eq_ignore_ascii_case(&n)) {
                continue;
            }
            let mut files: Vec<(String, Vec<u8>)> = vec![];
            for i in 0..d.usize(1, 5) {
                let p = if d.chance(1, 3) { name(d) } else { format!("{}\\{}", folder(d), name(d)) };
                if files.iter().any(|f| f.0.eq_ignore_ascii_case(&p)) {
                    continue;
                }
                let n = *d.pick(&[0, 10, 10, 5_000, 70_000, 300_000]);
                let mut data = format!("{i} {n} {p}\n").into_bytes();
                let byte = b'a' + d.below(26) as u8;
                data.resize(data.len() + n, byte);
                if d.chance(1, 6) {
                    data.clear();
                }
                files.push((p, data));
            }
            let m = vpc::pbo::Model {
                vers: true,
                props: vec![("prefix".into(), format!("a3\\{n}"))],
                entries: files.iter().map(|(n, b)| vpc::pbo::Entry::new(n, b)).collect(),
            };
            std::fs::write(root.join(f).join(format!("{n}.pbo")), vpc::pbo::encode(&m)).expect("pbo");
            if d.bool() {
                std::fs::write(root.join(f).join(format!("{n}.pbo.a3.bisign")), b"sign").expect("sign");
            }
            shown.push_str(&format!("{f}/{n}.pbo: {:?}\n", files.iter().map(|f| (&f.0, f.1.len())).collect::<Vec<_>>()));
            g.addons.push((n, files));
        }
    }
    c.input(&shown);
    g
}
impl Game {
    /// What is at the path; nothing is said about a drive asked in another case
    fn at(&self, p: &str) -> Option<Option<Vec<u8>>> {
        if let Some(f) = &self.drive {
            if let Some(x) = f.get(p) {
                return Some(Some(x.clone()));
            }
            let open = f.keys().any(|k| k.eq_ignore_ascii_case(p) || k.to_lowercase().starts_with(&format!("{}/", p.to_lowercase())));
            return if open { None } else { Some(None) };
        }
        let mut parts = p.splitn(3, '/');
        let (Some(a3), Some(addon), Some(file)) = (parts.next(), parts.next(), parts.next()) else {
            return None;
        };
        if !a3.eq_ignore_ascii_case("a3") {
            return Some(None);
        }
        let Some(a) = self.addons.iter().find(|a| a.0.eq_ignore_ascii_case(addon)) else {
            return Some(None);
        };
        let file = file.replace('/', "\\");
        if let Some(f) = a.1.iter().find(|f| f.0.eq_ignore_ascii_case(&file)) {
            return Some(Some(f.1.clone()));
        }
        // a folder
        if a.1.iter().any(|f| f.0.to_lowercase().starts_with(&format!("{}\\", file.to_lowercase()))) {
            return None;
        }
        Some(None)
    }
    fn query(&self, d: &mut D) -> String {
        let known = self.drive.as_ref().filter(|_| d.chance(3, 4));
        let p = if let Some(f) = known {
            (*d.pick(&f.keys().collect::<Vec<_>>())).clone()
        } else if self.addons.is_empty() || d.chance(1, 8) {
            format!("a3/{}/{}/{}", d.pick(&["data_f", "nothing_f"]), folder(d), name(d))
        } else {
            let a = d.pick(&self.addons);
            let f = if d.chance(1, 8) { name(d) } else { d.pick(&a.1).0.replace('\\', "/") };
            format!("a3/{}/{f}", a.0)
        };
        if d.chance(if known.is_some() { 1 } else { 5 }, 9) {
            case(d, &p)
        } else {
            p
        }
    }
}
fn workspace(dir: &Folder, p: PDriveOption) -> Result<WorkspacePath, Fail> {
    Workspace::builder()
        .physical(&dir.0.join("project"), LayerType::Source)
        .physical(&dir.0.join("project/include"), LayerType::Include)
        .finish(None, false, &p)
        .map_err(|e| Fail::new("workspace", e.to_string()))
}
fn read(p: &WorkspacePath) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    p.open_file().map_err(|e| e.to_string())?.read_to_end(&mut v).map_err(|e| e.to_string())?;
    Ok(v)
}
fn brief(b: &[u8]) -> String {
    format!("{:?} ({} bytes)", String::from_utf8_lossy(&b[..b.len().min(60)]), b.len())
}
/// A process of its own looks for the path and fails while it writes
fn interrupted(dir: &Folder, path: &str, limit: u64, killed: bool) -> Result<i32, Fail> {
    // SAFETY: a worker has a single thread
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
            libc::signal(libc::SIGXFSZ, if killed { libc::SIG_DFL } else { libc::SIG_IGN });
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
        let r = std::panic::catch_unwind(|| match workspace(dir, PDriveOption::Require) {
            Ok(w) => match w.locate(path) {
                Ok(Some(f)) => {
                    if read(&f.path).is_ok() {
                        10
                    } else {
                        12
                    }
                }
                Ok(None) => 11,
                Err(_) => 12,
            },
            Err(_) => 12,
        });
        unsafe { libc::_exit(r.unwrap_or(13)) }
    }
    ensure!(pid > 0, "harness", "fork");
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    Ok(if libc::WIFEXITED(status) { libc::WEXITSTATUS(status) } else { -1 })
}

fn game(d: &mut D, c: &mut Case) -> R {
    let dir = Folder::new();
    for f in ["home", "tmp", "project/include", "project/addons/main"] {
        std::fs::create_dir_all(dir.0.join(f)).expect("folder");
    }
    dir.put("project/addons/main/config.cpp", "// own");
    let g = install(d, c, &dir);
    let mut own: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for i in 0..d.below(3) {
        let p = if d.bool() && !g.addons.is_empty() {
            let a = d.pick(&g.addons);
            format!("a3/{}/{}", a.0, d.pick(&a.1).0.replace('\\', "/"))
        } else {
            format!("a3/{}/{}", folder(d), name(d))
        };
        if own.keys().any(|k| k.eq_ignore_ascii_case(&p) || k.to_lowercase().starts_with(&format!("{}/", p.to_lowercase())) || p.to_lowercase().starts_with(&format!("{}/", k.to_lowercase()))) || p.contains(char::is_uppercase) {
            continue;
        }
        dir.put(&format!("project/include/{p}"), &format!("own {i}"));
        own.insert(p, format!("own {i}").into_bytes());
    }
    if !own.is_empty() {
        c.input(&format!("own: {:?}", own.keys()));
    }
    let _env = Env::new(&dir.0.join("home"), &dir.0.join("tmp"));
    let sessions = d.usize(1, 3);
    let mut hits = 0;
    for _ in 0..sessions {
        let option = *d.pick(&[PDriveOption::Require, PDriveOption::Require, PDriveOption::Require, PDriveOption::Ignore, PDriveOption::Disallow]);
        let allowed = option == PDriveOption::Require;
        c.input(&format!("session {option:?}"));
        let w = workspace(&dir, option)?;
        let available = g.drive.is_some() || g.installed;
        ensure!(w.workspace().pdrive().is_some() == (allowed && available), "drive", "the game is found: {}, should be {}", w.workspace().pdrive().is_some(), allowed && available);
        let main = w.join("addons/main/config.cpp").map_err(|e| Fail::new("join", e.to_string()))?;
        for _ in 0..d.usize(1, 4) {
            let q = g.query(d);
            let path = format!("/{q}");
            let shown = if d.bool() { path.replace('/', "\\") } else { path.clone() };
            // what a lookup in another process leaves behind
            if allowed && g.drive.is_none() && d.chance(1, 5) {
                let killed = d.bool();
                let limit = *d.pick(&[0, 5, 4_000, 65_536, 70_000, 290_000]);
                let r = interrupted(&dir, &shown, limit, killed)?;
                c.input(&format!("{shown} with files up to {limit}: {r}"));
                c.note(if r == -1 { "killed while extracting" } else if r == 11 { "failed extraction" } else { "extraction in another process" });
                ensure!(r != 13, "interrupted", "{shown} panics when writing fails");
            }
            c.input(&shown);
            let own_file = own.iter().find(|o| o.0 == &q).map(|o| o.1.clone());
            let own_other = own.keys().any(|k| k.eq_ignore_ascii_case(&q) && *k != q);
            let want = if allowed && available { g.at(&q) } else { Some(None) };
            let Some(want) = want else { continue };
            let want = want.or(own_file);
            if want.is_none() && own_other {
                continue;
            }
            let many = if d.chance(1, 4) { d.usize(2, 8) } else { 1 };
            let barrier = std::sync::Barrier::new(many);
            let results: Vec<Result<Option<Vec<u8>>, String>> = std::thread::scope(|s| {
                let one = || {
                    barrier.wait();
                    let f = main.locate(&shown).map_err(|e| e.to_string())?;
                    f.map(|f| read(&f.path)).transpose()
                };
                let t: Vec<_> = (1..many).map(|_| s.spawn(one)).collect();
                let mut r = vec![one()];
                r.extend(t.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("panic".into()))));
                r
            });
            if many > 1 {
                c.note("looked up by several threads");
            }
            for r in results {
                match (r, &want) {
                    (Err(e), w) => fail!("failed", "{shown}: {e}; expected {:?}", w.as_ref().map(|b| brief(b))),
                    (Ok(None), None) => c.note("nothing there"),
                    (Ok(None), Some(b)) => fail!("not found", "{shown} should be {}", brief(b)),
                    (Ok(Some(b)), None) => fail!("found", "{shown} is {}, which should not be", brief(&b)),
                    (Ok(Some(b)), Some(x)) => {
                        hits += 1;
                        ensure!(b == *x, "content", "{shown} is {} instead of {}", brief(&b), brief(x));
                    }
                }
            }
            // from a file of the game to its neighbours
            let inside = allowed && g.at(&q).flatten().is_some();
            if inside && d.chance(1, 2) {
                let here = main.locate(&shown).map_err(|e| Fail::new("failed", e.to_string()))?.ok_or_else(|| Fail::new("not found", shown.clone()))?.path;
                let other = g.query(d);
                let (a, b): (Vec<&str>, Vec<&str>) = (q.split('/').collect(), other.split('/').collect());
                let up = &a[..a.len() - 1];
                let common = up.iter().zip(&b[..b.len() - 1]).take_while(|(x, y)| x.eq_ignore_ascii_case(y)).count();
                let mut rel: Vec<&str> = vec![".."; up.len() - common];
                rel.extend(&b[common..]);
                let rel = if d.bool() { rel.join("/") } else { rel.join("\\") };
                // where that is, in the case of the start
                let target: Vec<&str> = up[..common].iter().chain(&b[common..]).copied().collect();
                let Some(want) = g.at(&target.join("/")) else { continue };
                c.input(&format!("{rel} from {shown}"));
                let f = here.locate(&rel).map_err(|e| Fail::new("failed", format!("{rel} from {shown}: {e}")))?;
                match (f, want) {
                    (None, None) => c.note("no neighbour"),
                    (None, Some(b)) => fail!("neighbour", "{rel} from {shown} is not found, should be {}", brief(&b)),
                    (Some(f), None) => fail!("neighbour", "{rel} from {shown} is {}, which should not be", f.path),
                    (Some(f), Some(b)) => {
                        c.note("neighbour in the game");
                        let got = read(&f.path).map_err(|e| Fail::new("read", e))?;
                        ensure!(got == b, "neighbour", "{rel} from {shown} is {} instead of {}", brief(&got), brief(&b));
                    }
                }
            }
        }
        // strange paths are errors or nothing, and no crash
        let strange = *d.pick(&["/a3/", "/a3/x", "/a3//x.hpp", "/a3/../../../x", "/a3/../../../../etc/hostname", "/A3/data_f/", "/a3/./x/.", "/a3/é", "/a3/data_f//data/x", "/a3/data_f", "a3/", "/a3/data_f/../../../project/addons/main/config.cpp", "/a3/..", "/a3/x/\\"]);
        c.input(strange);
        if let Ok(Some(f)) = main.locate(strange) {
            ensure!(!f.path.is_file().unwrap_or(false) || f.path.as_str().contains("addons/main"), "strange", "{strange} is {}", f.path);
        }
    }
    // nothing is written but below the folder of extracted files
    for e in std::fs::read_dir(dir.0.join("tmp")).expect("tmp").flatten() {
        ensure!(e.file_name() == "hemtt_pdrive", "written", "{:?}", e.path());
    }
    c.nontrivial(hits > 0);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "W05",
        level: "exploration",
        rule: "a file of the game is found",
        facets: vec![Facet::new("game", 1_500, 60_000, game)],
        probes: vec![],
        assumptions: &["the game is installed through Steam on Linux", "a killed extraction is a process whose files may not grow further"],
    }]
}
