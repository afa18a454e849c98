//! New projects, made by answering questions on a terminal.
use crate::e2e::{hemtt, Root};
use hemtt_common::config::ProjectConfig;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

/// Run `hemtt` on a terminal of its own, with these keys.
fn on_terminal(root: &Path, args: &[&str], keys: &[u8]) -> Result<(Option<i32>, String), Fail> {
    let harness = |m: &str| Fail::new("harness", m.to_string());
    let (mut master, mut slave) = (0, 0);
    let size = libc::winsize { ws_row: 50, ws_col: 900, ws_xpixel: 0, ws_ypixel: 0 };
    // SAFETY: the pointers are valid for the call, the descriptors are owned by the files below
    let (master, slave) = unsafe {
        let mut raw: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut raw);
        raw.c_cc[libc::VMIN] = 1;
        if libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), &raw, &size) != 0 {
            return Err(harness("no terminal"));
        }
        libc::fcntl(master, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(slave, libc::F_SETFD, libc::FD_CLOEXEC);
        (std::fs::File::from_raw_fd(master), std::fs::File::from_raw_fd(slave))
    };
    let tmp = vpc::scratch().join("tmp");
    std::fs::create_dir_all(&tmp).expect("scratch");
    let side = || Stdio::from(slave.try_clone().expect("terminal"));
    let mut child = Command::new(std::env::current_exe().expect("own path").with_file_name("vp-hemtt"))
        .args(args)
        .current_dir(root)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("CI", "true")
        .env("NO_COLOR", "1")
        .env("TERM", "xterm")
        .env("TMPDIR", &tmp)
        .env("HOME", &tmp)
        .stdin(side())
        .stdout(side())
        .stderr(side())
        .spawn()
        .map_err(|e| harness(&e.to_string()))?;
    drop(slave);
    let mut out = master.try_clone().expect("terminal");
    let shown = std::thread::spawn(move || {
        let (mut text, mut b) = (vec![], [0; 4096]);
        // reading fails when the last user of the terminal is gone
        while let Ok(n @ 1..) = out.read(&mut b) {
            text.extend(&b[..n]);
        }
        String::from_utf8_lossy(&text).to_string()
    });
    let mut master = master;
    let _ = master.write_all(keys);
    let end = Instant::now() + Duration::from_secs(60);
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| harness(&e.to_string()))? {
            break s;
        }
        if Instant::now() > end {
            let _ = child.kill();
            let _ = child.wait();
            let text = shown.join().unwrap_or_default();
            return Err(Fail::new("waits", format!("hemtt {args:?} still waits after all answers:\n{text}")));
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let text = shown.join().unwrap_or_default();
    ensure!(status.code().is_some_and(|c| c != 101) && !text.contains("PANIC "), "crash", "{status}\n{text}");
    Ok((status.code(), text))
}

/// An answer, and the keys that give it, when the line begins with some letters.
fn answer(d: &mut D, initial: &str) -> (String, Vec<u8>) {
    let words = ["Advanced", "Banana", " ", "é", "Ünïcode", "\"quoted\"", "'", "\\", "{author}", "{year}", "#", "=", "[x]", "🍌", "a\\nb", "%s", "z", "&", "\"", "0"];
    let text: String = loop {
        let t = d.vec_between(1, 5, |d| *d.pick(&words)).concat();
        if !t.trim().is_empty() {
            break t.trim().to_string();
        }
    };
    let mut keys = vec![];
    if d.chance(1, 8) {
        // no answer is asked for again, except where there is one
        if initial.is_empty() {
            keys.push(b'\r');
        }
    }
    if !initial.is_empty() && d.chance(1, 3) {
        keys.push(b'\r');
        return (initial.to_string(), keys);
    }
    keys.extend(initial.bytes().map(|_| 0x7f));
    let wrong = d.chance(1, 6);
    for (k, c) in text.chars().enumerate() {
        if wrong && k == 0 {
            keys.extend("xy".bytes());
            keys.extend([0x7f, 0x7f]);
        }
        keys.extend(c.to_string().bytes());
    }
    keys.push(b'\r');
    (text, keys)
}

fn all(root: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(at: &Path, rel: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(at).expect("folder").flatten() {
            let name = format!("{rel}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                out.insert(name.clone(), None);
                if e.file_name() != ".git" {
                    walk(&e.path(), &format!("{name}/"), out);
                }
            } else {
                out.insert(name, std::fs::read(e.path()).ok());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, "", &mut out);
    out
}

fn asked(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let name = *d.pick(&["my_mod", "mod", "My Mod", "möd", "a.b"]);
    root.put("other/file.txt", b"kept");
    let ((full, k1), (author, k2), (prefix, k3), (main, k4)) = (answer(d, ""), answer(d, ""), answer(d, ""), answer(d, "z"));
    let license = d.usize(0, 7);
    let mut keys = [k1, k2, k3, k4].concat();
    for _ in 0..license {
        keys.extend(b"\x1b[B");
    }
    keys.push(b'\r');
    c.input(&format!("hemtt new {name:?}: {full:?}, {author:?}, {prefix:?}, {main:?}, license {license}"));
    let taken = d.weighted(&[6, 1, 1, 1]);
    match taken {
        1 => root.put(&format!("{name}/addons/main/config.cpp"), b"mine"),
        2 => root.put(name, b"mine"),
        _ => {}
    }
    let before = all(&root.0);
    let code = if taken == 3 {
        let o = hemtt(&root.0, &["new", name])?;
        ensure!(o.text.contains("BCNE1"), "said", "without a terminal: {}", o.text);
        o.code
    } else {
        let (code, text) = on_terminal(&root.0, &["new", name], &keys)?;
        ensure!(text.contains("BCNE2") == (taken > 0), "said", "{text}");
        code
    };
    let after = all(&root.0);
    if taken > 0 {
        ensure!(code == Some(1), "refused", "it ends with {code:?}");
        ensure!(after == before, "touched", "a refused project changes {:?}", after.keys().collect::<Vec<_>>());
        c.note(["", "the folder is there", "a file is there", "no terminal"][taken]);
        return Ok(());
    }
    ensure!(code == Some(0), "refused", "it ends with {code:?}");
    let mut names: Vec<String> = before.keys().cloned().collect();
    names.extend(["", "/addons", "/.git", "/.gitignore", "/.hemtt", "/.hemtt/project.toml"].map(|n| format!("{name}{n}")));
    if license != 7 {
        names.push(format!("{name}/LICENSE"));
    }
    names.sort();
    ensure!(after.keys().cloned().collect::<Vec<_>>() == names, "files", "{:?}", after.keys().collect::<Vec<_>>());
    ensure!(before.iter().all(|(n, b)| after.get(n) == Some(b)), "touched", "other files change");
    let text = |n: &str| String::from_utf8_lossy(after[&format!("{name}/{n}")].as_deref().unwrap_or_default()).to_string();
    let project = text(".hemtt/project.toml");
    let v: toml::Table = toml::from_str(&project).map_err(|e| Fail::new("project", format!("{e}\n{project}")))?;
    for (k, want) in [("name", &full), ("author", &author), ("prefix", &prefix), ("mainprefix", &main)] {
        ensure!(v.get(k).and_then(|v| v.as_str()) == Some(want.as_str()), "project", "{k} is {:?} instead of {want:?}\n{project}", v.get(k));
    }
    let config = ProjectConfig::from_file(&root.0.join(name).join(".hemtt/project.toml")).map_err(|e| Fail::new("project", format!("{e}\n{project}")))?;
    ensure!(*config.name() == full && *config.prefix() == prefix && config.mainprefix() == Some(&main), "project", "{config:?}");
    let ignored = text(".gitignore");
    for i in ["*.pbo", ".hemttout", "*.biprivatekey"] {
        ensure!(ignored.lines().any(|l| l == i), "ignored", "{i} is not in {ignored}");
    }
    if license != 7 {
        let t = text("LICENSE");
        let upper = t.to_uppercase();
        let is = |words: &[&str]| words.iter().all(|w| upper.contains(w));
        let known = [
            is(&["ARMA PUBLIC LICENSE", "SHARE ALIKE"]),
            is(&["ARMA PUBLIC LICENSE"]) && !is(&["SHARE ALIKE"]) && !is(&["NO DERIVATIVES"]),
            is(&["ARMA PUBLIC LICENSE", "NO DERIVATIVES"]),
            is(&["APACHE LICENSE"]),
            is(&["GNU GENERAL PUBLIC LICENSE"]),
            is(&["PERMISSION IS HEREBY GRANTED, FREE OF CHARGE"]),
            is(&["UNENCUMBERED"]),
        ];
        ensure!(known[license] , "license", "not what was chosen: {known:?} {t}");
        if license != 6 {
            let years: Vec<String> = (2024..2200).filter(|y| t.contains(&format!("{y} {author}"))).map(|y| y.to_string()).collect();
            ensure!(years.len() == 1, "license", "year and author are not in the license:\n{}", t.lines().filter(|l| l.contains("Copyright") || l.contains('{')).collect::<Vec<_>>().join("\n"));
        }
    }
    c.nontrivial(true);
    c.note_if(full.contains('"') || author.contains('"') || prefix.contains('"'), "quotes");
    c.note_if(license != 7, "license");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E10",
        level: "exploration",
        rule: "a project is made",
        facets: vec![Facet::new("asked", 300, 10_000, asked)],
        probes: vec![],
        assumptions: &["the system has pseudo-terminals"],
    }]
}
