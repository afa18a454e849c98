//! The tools that show what files of the game hold.
use crate::e2e::{config, hemtt, tree, Node, Root};
use crate::paa::{encode as texture_file, model, pixels};
use hemtt_pbo::{BISignVersion, ReadablePbo, WritablePbo};
use hemtt_signing::BIPrivateKey;
use std::io::Cursor;
use vpc::gen::mutate;
use vpc::sha::sha1;
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
/// A name, and whether it tells what the file is
fn named(d: &mut D, ext: &str) -> (String, bool) {
    let dir = *d.pick(&["", "", "sub/", "a b/", "./"]);
    let stem = *d.pick(&["x", "é", "a.b", "two words"]);
    match d.below(4) {
        0 => (format!("{dir}{stem}"), stem != "a.b"),
        1 => (format!("{dir}{stem}.{}", d.pick(&["bin", "old"])), false),
        _ => (format!("{dir}{stem}.{ext}"), true),
    }
}

// ---- textures ----

fn rows(json: &str) -> Result<Vec<(u64, u64, u64, String, bool)>, Fail> {
    let v: serde_json::Value = serde_json::from_str(json).map_err(|e| Fail::new("json", format!("{e}: {json}")))?;
    let v = v.as_array().ok_or_else(|| Fail::new("json", json.to_string()))?.clone();
    v.iter()
        .map(|r| Some((r["width"].as_u64()?, r["height"].as_u64()?, r["size"].as_u64()?, r["format"].as_str()?.to_string(), r["compressed"].as_bool()?)))
        .collect::<Option<Vec<_>>>()
        .ok_or_else(|| Fail::new("json", json.to_string()))
}
fn cells(text: &str) -> Vec<Vec<String>> {
    text.lines()
        .filter(|l| l.starts_with(['│', '|']))
        .map(|l| l.split(['│', '|']).map(|c| c.trim().to_string()).filter(|c| !c.is_empty()).collect::<Vec<_>>())
        .filter(|r: &Vec<String>| !r.is_empty() && !r[0].starts_with('-') && !r[0].starts_with(':'))
        .collect()
}
fn texture(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let mut m = model(d, false);
    let mut file = texture_file(d, &mut m, false);
    let damaged = d.chance(1, 4);
    if damaged {
        mutate(d, &mut file);
    }
    let name = "x.paa";
    root.put(name, &file);
    c.input_bytes(&file);
    let kind = format!("DXT{}", m.kind);
    let want: Vec<(u64, u64, u64, String, bool)> = m.mips.iter().map(|i| (i.width.into(), i.height.into(), i.data.len() as u64, format!("Bc{}", m.kind / 2 + 1), i.packed)).collect();
    let format = *d.pick(&["json", "pretty-json", "ascii", "markdown", ""]);
    let o = if format.is_empty() && d.bool() {
        // known by its content
        let other = *d.pick(&["x.bin", "y", "x.paa.old"]);
        root.put(other, &file);
        hemtt(&root.0, &["utils", "inspect", other])?
    } else if format.is_empty() {
        hemtt(&root.0, &["utils", "inspect", name])?
    } else {
        hemtt(&root.0, &["utils", "paa", "inspect", name, "--format", format])?
    };
    if !damaged {
        ensure!(o.code == Some(0), "inspect", "{:?}\n{}", o.code, o.text);
        let text = String::from_utf8_lossy(&o.stdout);
        ensure!(text.contains(&format!("  - Format: {kind}\nMaps: {}\n", want.len())), "kind", "{text}");
        if format.ends_with("json") {
            let json = text.split_once(&format!("Maps: {}\n", want.len())).map_or("", |x| x.1);
            let got = rows(json)?;
            ensure!(got == want, "images", "{got:?} instead of {want:?}");
        } else {
            let got = cells(&text);
            let mut w = vec![["Width", "Height", "Size", "Format", "Compressed"].map(String::from).to_vec()];
            w.extend(want.iter().map(|r| vec![r.0.to_string(), r.1.to_string(), r.2.to_string(), r.3.clone(), r.4.to_string()]));
            ensure!(got == w, "images", "{got:?} instead of {w:?}\n{text}");
        }
    }
    // convert the first image
    let out = *d.pick(&["out.png", "out.png", "é.bmp", "out.tga", "out.nothing", "no/such/folder.png"]);
    let taken = d.chance(1, 6) && !out.starts_with("no/");
    if taken {
        root.put(out, b"mine");
    }
    let before = tree(&root.0);
    let o = hemtt(&root.0, &["utils", "paa", "convert", name, out])?;
    let mut after = tree(&root.0);
    let made = after.remove(out);
    ensure!(before.iter().all(|(k, v)| k == out || after.get(k) == Some(v)) && after.len() == before.len() - usize::from(taken), "other files", "converting changes other files: {:?}", after.keys());
    if taken {
        ensure!(matches!(made, Some(Node::File(b)) if b == b"mine"), "overwritten", "{out} is overwritten");
        c.note("exists");
        return Ok(());
    }
    c.nontrivial(!m.mips.is_empty());
    if damaged {
        c.note(if made.is_some() { "damaged, converted" } else { "damaged, refused" });
        ensure!(made.is_some() || o.text.contains("ERROR") || o.code != Some(0), "silent", "nothing is written and nothing is said:\n{}", o.text);
        return Ok(());
    }
    let Some(first) = m.mips.first() else {
        ensure!(made.is_none() && (o.code != Some(0) || o.text.contains("ERROR")), "invented", "an image without there being one\n{}", o.text);
        return Ok(());
    };
    if out.ends_with("nothing") || out.starts_with("no/") {
        ensure!(made.is_none() && o.text.contains("ERROR"), "silent", "{out}:\n{}", o.text);
        return Ok(());
    }
    ensure!(o.code == Some(0), "convert", "{:?}\n{}", o.code, o.text);
    let img = image::open(root.0.join(out)).map_err(|e| Fail::new("convert", format!("{out}: {e}\n{}", o.text)))?.to_rgba8();
    let (w, h) = (usize::from(first.width), usize::from(first.height));
    ensure!(img.width() as usize == w && img.height() as usize == h, "size", "{}x{} for {w}x{h}", img.width(), img.height());
    for (i, want) in pixels(m.kind, w, h, &first.blocks).iter().enumerate() {
        let got = img.get_pixel((i % w) as u32, (i / w) as u32).0;
        ensure!(got.iter().zip(want).all(|(a, b)| a.abs_diff(*b) <= 1), "pixel", "pixel {},{} of a {w}x{h} {kind} is {got:?}, not {want:?}", i % w, i / w);
    }
    Ok(())
}

// ---- keys and signatures ----

const KEYS: &[&[u8]] = &[include_bytes!("../../lib/fixtures/a1024.biprivatekey"), include_bytes!("../../lib/fixtures/b1024.biprivatekey"), include_bytes!("../../lib/fixtures/c512.biprivatekey")];

fn private(i: usize, authority: &str) -> Result<BIPrivateKey, Fail> {
    let end = KEYS[i].iter().position(|b| *b == 0).expect("a name");
    let mut v = authority.as_bytes().to_vec();
    v.extend(&KEYS[i][end..]);
    BIPrivateKey::read(&mut &v[..]).map_err(|e| Fail::new("private-key-read", e.to_string()))
}
/// What is shown of a key, from its file.
fn shown(key: &[u8], name: &str, version: Option<&str>) -> Result<String, Fail> {
    let end = key.iter().position(|b| *b == 0).expect("a name");
    let authority = String::from_utf8_lossy(&key[..end]).to_string();
    let u32_at = |i: usize| u32::from_le_bytes([key[i], key[i + 1], key[i + 2], key[i + 3]]);
    let bits = u32_at(end + 1 + 16);
    let e = u32_at(end + 1 + 20);
    let mut n = key[end + 1 + 24..][..bits as usize / 8].to_vec();
    n.reverse();
    let n = hex(&n);
    let n = n.trim_start_matches('0').as_bytes().chunks(20).map(|c| String::from_utf8_lossy(c).to_string()).collect::<Vec<_>>().join(&format!("\n{}", " ".repeat(13)));
    Ok(format!(
        "{}: {name:?}\n  - Authority: {authority}\n{}  - Length: {bits}\n  - Exponent: {e}\n  - Modulus: {n}\n",
        if version.is_some() { "Signature" } else { "Public Key" },
        version.map_or(String::new(), |v| format!("  - Version: {v}\n"))
    ))
}
fn bytes<T>(f: impl FnOnce(&mut Vec<u8>) -> Result<T, hemtt_signing::Error>) -> Result<Vec<u8>, Fail> {
    let mut v = Vec::new();
    f(&mut v).map_err(|e| Fail::new("write", e.to_string()))?;
    Ok(v)
}
fn signed(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let auth = format!("k{}", d.string_of(&['a', 'Z', '_', '0', '.', '-', ' ', 'é'], 0, 10));
    let auth = auth.trim_end().to_string();
    let k = d.usize(0, 2);
    let key = private(k, &auth)?;
    let files = vpc::gen::pbo_files(d, 5, 300, &['\\']);
    let mut p = WritablePbo::new();
    p.add_property("prefix", "z\\m\\addons\\a");
    let props = [("version", "1.2.3"), ("hemtt", "x")];
    let some = d.usize(0, 2);
    for (k, v) in &props[..some] {
        p.add_property(*k, *v);
    }
    p.add_file("config.cpp", Cursor::new(b"class A;".to_vec())).map_err(|e| Fail::new("add", e.to_string()))?;
    let mut data = 8;
    for (n, b) in &files {
        if vpc::gen::fold(n) != "config.cpp" {
            data += b.len();
            p.add_file(n, Cursor::new(b.clone())).map_err(|e| Fail::new("add", e.to_string()))?;
        }
    }
    let mut out = Cursor::new(Vec::new());
    p.write(&mut out, true).map_err(|e| Fail::new("write", e.to_string()))?;
    let mut file = out.into_inner();
    let v = *d.pick(&[BISignVersion::V2, BISignVersion::V3]);
    let mut sig = bytes(|o| {
        let mut p = ReadablePbo::from(Cursor::new(file.clone()))?;
        key.sign(&mut p, v)?.write(o)
    })?;
    let mut public = bytes(|o| key.to_public_key().write(o))?;
    let stem = *d.pick(&["x", "sub/x", "a.b", "é", "x y"]);
    let pbo_name = format!("{stem}.pbo");
    let key_name = (*d.pick(&["k.bikey", "keys/k.bikey", "other.name", "é"])).to_string();
    let mut sig_name = format!("{stem}.pbo.{auth}.bisign");
    c.input(&format!("{pbo_name} {key_name} {auth:?} {v} {}", vpc::show_bytes(&file)));
    c.nontrivial(data > 8);

    let fault = if d.bool() { 0 } else { d.usize(1, 9) };
    let mut valid = true;
    let mut hash_ok = true;
    // an answer other than that it does not verify
    let mut refused = false;
    c.note(["right", "content", "header", "other key", "other authority", "signature cut", "no signature", "pbo cut", "key cut", "signature of another"][fault]);
    match fault {
        1 => {
            let at = file.len() - 21 - data + d.usize(0, data - 1);
            file[at] ^= 1 << d.below(8);
            (valid, hash_ok) = (false, false);
            if d.bool() {
                let n = file.len() - 20;
                let h = sha1(&file[..n - 1]);
                file[n..].copy_from_slice(&h);
                hash_ok = true;
            }
        }
        2 => {
            // the prefix
            let at = file.windows(6).position(|w| w == b"prefix").expect("prefix") + 7;
            file[at + d.usize(0, 11)] = b'q';
            (valid, hash_ok) = (false, false);
        }
        3 => {
            let other = private((k + 1 + d.usize(0, 1)) % 3, &auth)?.to_public_key();
            public = bytes(|o| other.write(o))?;
            valid = false;
        }
        4 => {
            let other = format!("{auth}x");
            public = bytes(|o| private(k, &other).map_err(|_| hemtt_signing::Error::InvalidLength)?.to_public_key().write(o))?;
            sig_name = format!("{stem}.pbo.{other}.bisign");
            valid = false;
        }
        5 => {
            sig.truncate(d.usize(0, sig.len() - 1));
            (valid, refused) = (false, true);
        }
        6 => {
            sig_name = format!("{stem}.pbo.{auth}1.bisign");
            (valid, refused) = (false, true);
        }
        7 => {
            file.truncate(d.usize(0, file.len() - 1));
            (valid, refused) = (false, true);
        }
        8 => {
            public.truncate(d.usize(0, public.len() - 1));
            (valid, refused) = (false, true);
        }
        9 => {
            let mut p = WritablePbo::new();
            p.add_property("prefix", "z\\m\\addons\\a");
            p.add_file("config.cpp", Cursor::new(b"class B;".to_vec())).map_err(|e| Fail::new("add", e.to_string()))?;
            let mut out = Cursor::new(Vec::new());
            p.write(&mut out, true).map_err(|e| Fail::new("write", e.to_string()))?;
            sig = bytes(|o| key.sign(&mut ReadablePbo::from(Cursor::new(out.into_inner()))?, v)?.write(o))?;
            valid = false;
        }
        _ => {}
    }
    root.put(&pbo_name, &file);
    root.put(&key_name, &public);
    root.put(&sig_name, &sig);
    let before = tree(&root.0);
    let (ap, ak) = (root.0.join(&pbo_name).display().to_string(), root.0.join(&key_name).display().to_string());
    let absolute = d.chance(1, 4);
    let o = if absolute { hemtt(&root.0, &["utils", "verify", &ap, &ak])? } else { hemtt(&root.0, &["utils", "verify", &pbo_name, &key_name])? };
    let said = o.text.lines().any(|l| l.trim() == "Verified!");
    ensure!(said == valid, if valid { "not verified" } else { "verified" }, "{:?}\n{}", o.code, o.text);
    if valid {
        ensure!(o.code == Some(0) && !o.text.contains("Failed"), "not verified", "{:?}\n{}", o.code, o.text);
    } else {
        ensure!(o.code != Some(0) || o.text.contains("Failed"), "silent", "{}", o.text);
    }
    if !refused {
        let n = file.len() - 21;
        let (stored, actual) = (hex(&file[n + 1..]), hex(&sha1(&file[..n])));
        let has = |what: &str, h: &str| o.text.lines().any(|l| l.starts_with(&format!("  - {what} SHA1 Hash:")) && l.to_lowercase().ends_with(h));
        ensure!(has("Stored", &stored) && has("Actual", &actual), "hash", "stored {stored}, actual {actual}:\n{}", o.text);
        ensure!(o.text.contains("invalid hash") != hash_ok, "hash", "{}", o.text);
        ensure!(o.text.contains(&format!("  - Size: {}\n", file.len())), "file size", "{}", o.text);
        for (k, v) in &props[..some] {
            ensure!(o.text.contains(&format!("      - {k}: {v}\n")), "properties", "{k} is not shown\n{}", o.text);
        }
    }
    // inspect the key, the signature and the PBO
    if [0, 9].contains(&fault) {
        let (kn, _) = named(d, "bikey");
        root.put(&format!("k/{kn}"), &public);
        let kn = format!("k/{kn}");
        let o = hemtt(&root.0, &["utils", "inspect", &kn])?;
        let want = shown(&public, &kn, None)?;
        ensure!(o.code == Some(0) && String::from_utf8_lossy(&o.stdout).contains(&want), "key", "{want}\nis not shown:\n{}", o.text);
        let (sn, _) = named(d, "bisign");
        let sn = format!("s/{sn}");
        root.put(&sn, &sig);
        let o = hemtt(&root.0, &["utils", "inspect", &sn])?;
        let want = shown(&sig, &sn, Some(&v.to_string()))?;
        ensure!(o.code == Some(0) && String::from_utf8_lossy(&o.stdout).contains(&want), "signature", "{want}\nis not shown:\n{}", o.text);
        let (pn, _) = named(d, "pbo");
        let pn = format!("p/{pn}");
        root.put(&pn, &file);
        let o = hemtt(&root.0, &["utils", "inspect", &pn])?;
        ensure!(o.code == Some(0) && o.text.contains("config.cpp") && o.text.contains("z\\m\\addons\\a"), "pbo", "{pn}\n{}", o.text);
    } else if fault == 8 {
        let o = hemtt(&root.0, &["utils", "inspect", &key_name])?;
        ensure!(o.code != Some(0) || !o.text.contains("Modulus"), "key", "half of a key is shown\n{}", o.text);
    } else {
        ensure!(tree(&root.0) == before, "changed", "verifying writes something");
    }
    Ok(())
}

// ---- configs ----

fn inspected(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let (name, _) = (format!("{}{}", d.pick(&["", "sub/", "./", "a b/"]), d.pick(&["config.cpp", "é.hpp", "x.y.cpp", "CfgX.hpp"])), ());
    let mut text = String::new();
    let mut patches = vec![];
    let dir = name.rsplit_once('/').map_or(String::new(), |x| format!("{}/", x.0));
    let include = d.chance(1, 3).then_some("lib_macros.h");
    if include.is_some() {
        root.put(&format!("{dir}lib_macros.h"), b"#define SHARED_NUMBER 1234\n#define SHARED_QUOTE(t) #t\n");
    }
    let (body, _) = config(d, None, include);
    text.push_str(&body);
    let mut seen = vec![];
    if d.chance(3, 4) {
        text.push_str("class CfgPatches {\n");
        for _ in 0..d.usize(0, 3) {
            let n = *d.pick(&["my_addon", "Other", "x_1"]);
            if seen.contains(&n) {
                continue;
            }
            seen.push(n);
            let (v, shown) = *d.pick(&[("2.0", "2.0.0"), ("1.5", "1.50.0"), ("0.1", "0.10.0"), ("2.18", "2.18.0"), ("", "0.0.0")]);
            let req = if v.is_empty() { String::new() } else { format!(" requiredVersion = {v};") };
            text.push_str(&format!(" class {n} {{ units[] = {{}}; requiredAddons[] = {{}};{req} }};\n"));
            patches.push((n, shown));
        }
        text.push_str("};\n");
    }
    let wrong = d.chance(1, 3);
    let mut kind = 0;
    if wrong {
        kind = d.usize(1, 4);
        text.push_str(["", "zzz = 1\n", "#include \"not_there.h\"\n", "class Zzz { zzz = ; };\n", "class Zzz: NotThere {};\n"][kind]);
    }
    c.input(&format!("{name}\n{text}"));
    c.nontrivial(!patches.is_empty() || wrong);
    c.note(["right", "no semicolon", "missing include", "no value", "missing parent"][kind]);
    root.put(&name, text.as_bytes());
    let before = tree(&root.0);
    let mut ask = if d.chance(1, 4) { root.0.join(&name).display().to_string() } else { name.clone() };
    let missing = d.chance(1, 12);
    if missing {
        ask = format!("{dir}not_there.cpp");
    }
    let o = if d.bool() { hemtt(&root.0, &["utils", "config", "inspect", &ask])? } else { hemtt(&root.0, &["utils", "inspect", &ask])? };
    ensure!(tree(&root.0) == before, "changed", "inspecting writes something");
    let said = o.text.contains("Config is valid!");
    if missing {
        ensure!(!said && (o.code != Some(0) || o.text.contains("ERROR")), "missing", "{}", o.text);
        return Ok(());
    }
    ensure!(said != wrong, if wrong { "accepted" } else { "refused" }, "{:?}\n{}", o.code, o.text);
    if wrong {
        let base = name.rsplit('/').next().expect("name");
        ensure!(o.text.contains("error") && o.text.contains(base), "report", "{base} is not named\n{}", o.text);
        return Ok(());
    }
    ensure!(o.code == Some(0), "refused", "{:?}\n{}", o.code, o.text);
    let got: Vec<String> = o.text.lines().filter_map(|l| l.strip_prefix("    - ")).map(String::from).collect();
    let want: Vec<String> = patches.iter().map(|(n, v)| format!("{n}, requires {v}")).collect();
    ensure!(got == want, "patches", "{got:?} instead of {want:?}");
    if want.is_empty() {
        ensure!(o.text.contains("Contains no CfgPatches"), "patches", "{}", o.text);
    }
    Ok(())
}

/// Any bytes under any name.
fn anything(d: &mut D, c: &mut Case) -> R {
    let root = Root::new();
    let mut b = match d.below(5) {
        0 => d.bytes(300),
        1 => {
            let mut m = model(d, false);
            texture_file(d, &mut m, false)
        }
        2 => vpc::pbo::encode(&vpc::gen::foreign_pbo(d, &['\\'])),
        3 => bytes(|o| private(2, "abc").map_err(|_| hemtt_signing::Error::InvalidLength)?.to_public_key().write(o))?,
        _ => {
            let mut v = b"class A { x = 1; };\nclass CfgPatches { class B {}; };\n".to_vec();
            v.extend(d.bytes(5));
            v
        }
    };
    if d.chance(3, 4) {
        mutate(d, &mut b);
    }
    let name = *d.pick(&["x.paa", "x.pbo", "x.bikey", "x.bisign", "x.cpp", "x.hpp", "x", "x.bin"]);
    c.input(name);
    c.input_bytes(&b);
    c.nontrivial(b.len() > 6);
    root.put(name, &b);
    root.put("k.bikey", &bytes(|o| private(2, "abc").map_err(|_| hemtt_signing::Error::InvalidLength)?.to_public_key().write(o))?);
    let before = tree(&root.0);
    let args: Vec<&str> = match d.below(6) {
        0 => vec!["utils", "paa", "inspect", name],
        1 => vec!["utils", "pbo", "inspect", name],
        2 => vec!["utils", "config", "inspect", name],
        3 => vec!["utils", "verify", name, "k.bikey"],
        4 => vec!["utils", "verify", "x", name],
        _ => vec!["utils", "inspect", name],
    };
    // a crash is one of the harness' own failures
    let o = hemtt(&root.0, &args)?;
    ensure!(tree(&root.0) == before, "changed", "{args:?} writes something");
    if args[1] == "verify" {
        ensure!(!o.text.contains("Verified!"), "verified", "{}", o.text);
    }
    c.note(if o.code == Some(0) { "shown" } else { "refused" });
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E08",
        level: "exploration",
        rule: "the file holds something: an image, data in files, a patch or a mistake",
        facets: vec![Facet::new("texture", 900, 40_000, texture), Facet::new("signed", 700, 30_000, signed), Facet::new("config", 900, 40_000, inspected), Facet::new("anything", 1_500, 80_000, anything)],
        probes: vec![],
        assumptions: &[],
    }]
}
