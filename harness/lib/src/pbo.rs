use hemtt_pbo::{BISignVersion, ReadablePbo, WritablePbo};
use std::io::{Cursor, Read};
use vpc::gen::{self, fold, Choppy, Failing};
use vpc::pbo::{decode, encode, raw, shown, Entry, Model};
use vpc::{ensure, fail, Case, Facet, Fail, Property, D, R};

pub fn show(m: &Model) -> String {
    format!(
        "props {:?} entries {:?}",
        m.vers.then_some(&m.props),
        m.entries.iter().map(|e| (e.name.as_str(), e.mime, e.timestamp, vpc::show_bytes(&e.data))).collect::<Vec<_>>()
    )
}

/// What a PBO written from these files and properties has to contain.
fn expected(files: &[(String, Vec<u8>)], props: Option<&[(String, String)]>) -> Model {
    let mut entries: Vec<Entry> = files.iter().map(|(n, c)| Entry::new(&n.replace('/', "\\"), c)).collect();
    entries.sort_by_key(|e| fold(&e.name));
    let mut ps: Vec<(String, String)> = Vec::new();
    if let Some(p) = props {
        ps.extend(p.iter().filter(|x| x.0 == "prefix").cloned());
        ps.extend(p.iter().filter(|x| x.0 != "prefix").cloned());
        for x in &mut ps {
            x.1 = x.1.trim_matches('\\').to_string();
        }
    }
    Model { vers: props.is_some(), props: ps, entries }
}

pub fn other_case(d: &mut D, s: &str) -> String {
    match d.below(3) {
        0 => s.to_string(),
        1 => s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_ascii_uppercase(),
    }
    .chars()
    .map(|c| if c == '\\' && d.bool() { '/' } else { c })
    .collect()
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = at.saturating_sub(20);
    format!(
        "lengths {} / {}, first difference at {at}: {} / {}",
        a.len(),
        b.len(),
        vpc::show_bytes(&a[lo..a.len().min(at + 40)]),
        vpc::show_bytes(&b[lo..b.len().min(at + 40)])
    )
}

fn check_reader<I: std::io::Read + std::io::Seek>(d: &mut D, r: &mut ReadablePbo<I>, m: &Model) -> R {
    let want: Vec<(String, String)> = m.props.iter().map(|(k, v)| (shown(k), shown(v))).collect();
    let got: Vec<(String, String)> = r.properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ensure!(got == want, "read-properties", "read properties {got:?}, written {want:?}");
    let names: Vec<String> = r.files().iter().map(|h| h.filename().to_string()).collect();
    let wn: Vec<String> = m.entries.iter().map(|e| shown(&e.name)).collect();
    ensure!(names == wn, "read-names", "read names {names:?}, written {wn:?}");
    let blob = decode(&encode(m)).map_err(|e| Fail::new("model", e))?.blob as u64;
    let mut off = blob;
    for (h, e) in r.files().iter().zip(&m.entries) {
        let f = (h.mime().as_u32(), h.original(), h.reserved(), h.timestamp(), h.size() as usize);
        ensure!(f == (e.mime, e.original, e.reserved, e.timestamp, e.data.len()), "read-header", "header of {:?} read as {f:?}", e.name);
        let name = shown(&e.name);
        let asked = if name.is_ascii() { other_case(d, &name) } else { name.clone() };
        let o = r.file_offset(&asked).map_err(|e| Fail::new("read-error", e.to_string()))?;
        ensure!(o == Some(off), "file-offset", "offset of {asked:?} is {o:?}, expected {off}");
        off += e.data.len() as u64;
        let Some(mut f) = r.file(&asked).map_err(|e| Fail::new("read-error", e.to_string()))? else {
            fail!("file-missing", "{asked:?} is not found");
        };
        let mut got = Vec::new();
        if d.bool() {
            f.read_to_end(&mut got).map_err(|e| Fail::new("read-error", e.to_string()))?;
        } else {
            let mut buf = vec![0u8; d.usize(1, 64)];
            loop {
                let n = f.read(&mut buf).map_err(|e| Fail::new("read-error", e.to_string()))?;
                if n == 0 {
                    break;
                }
                got.extend(&buf[..n]);
            }
        }
        ensure!(got == e.data, "file-content", "content of {asked:?}: {}", first_diff(&got, &e.data));
        let hd = r.header(&name.replace('\\', "/"));
        ensure!(hd.is_some_and(|h| h.filename() == name), "header-lookup", "header({:?}) is {hd:?}", e.name);
    }
    for absent in ["no such file", "data\\missing.sqf"] {
        if !m.entries.iter().any(|e| fold(&e.name) == absent) {
            ensure!(matches!(r.file(absent), Ok(None)), "phantom-file", "{absent:?} is found");
            ensure!(matches!(r.file_offset(absent), Ok(None)), "phantom-file", "{absent:?} has an offset");
        }
    }
    Ok(())
}

/// The model in the order the checksum and the signatures are defined over.
pub fn canonical(m: &Model) -> Model {
    let mut c = m.clone();
    c.entries.sort_by_key(|e| shown(&e.name).to_lowercase());
    let mut ps: Vec<(String, String)> = c.props.iter().filter(|p| p.0 == "prefix").cloned().collect();
    ps.extend(c.props.iter().filter(|p| p.0 != "prefix").cloned());
    c.props = ps;
    c
}

pub fn stored_checksum(b: &[u8]) -> [u8; 20] {
    b[b.len() - 20..].try_into().unwrap()
}

fn write_read(d: &mut D, c: &mut Case) -> R {
    let big = d.chance(1, if c.thorough { 60 } else { 200 });
    let mut files = gen::pbo_files(d, 12, 5000, &['\\', '/']);
    if big {
        let n = d.usize(999_990, 1_200_000);
        let data = d.bulk(n);
        files.retain(|f| fold(&f.0) != "big.p3d");
        files.push(("big.p3d".into(), data));
    }
    let props = gen::pbo_props(d);
    let with_props = d.chance(4, 5);
    let m = expected(&files, with_props.then_some(&props[..]));
    c.input(&show(&m));
    c.nontrivial(files.len() >= 2 && files.iter().any(|f| !f.1.is_empty()));
    c.note_if(big, "file over 1 MB (threaded path)");
    c.note_if(props.iter().any(|p| p.0 == "prefix"), "has prefix");
    c.note_if(!with_props, "without properties");
    c.note_if(files.is_empty(), "no files");
    let mut w = WritablePbo::new();
    // overwriting a file or a property keeps the last one only
    for (n, data) in &files {
        if d.chance(1, 10) {
            w.add_file(n.clone(), Cursor::new(b"stale".to_vec())).map_err(|e| Fail::new("add", e.to_string()))?;
        }
        w.add_file(n.clone(), Cursor::new(data.clone())).map_err(|e| Fail::new("add", e.to_string()))?;
    }
    for (k, v) in &props {
        if d.chance(1, 10) {
            w.add_property(k.clone(), "stale");
        }
        w.add_property(k.clone(), v.clone());
    }
    // what is taken away again leaves the rest as it was
    if d.chance(1, 6) {
        let at = d.usize(0, props.len());
        w = WritablePbo::new();
        for (n, data) in &files {
            w.add_file(n.clone(), Cursor::new(data.clone())).map_err(|e| Fail::new("add", e.to_string()))?;
        }
        for i in 0..=props.len() {
            if i == at {
                w.add_property("passing", "x");
            }
            if let Some((k, v)) = props.get(i) {
                w.add_property(k.clone(), v.clone());
            }
        }
        ensure!(w.remove_property("passing") == Some("x".into()), "removed-property", "a removed property is not returned");
    }
    let wn: Vec<String> = w.files_sorted().iter().map(|h| h.filename().to_string()).collect();
    ensure!(wn == m.entries.iter().map(|e| e.name.clone()).collect::<Vec<_>>(), "files-sorted", "files_sorted: {wn:?}");
    let mut out = Vec::new();
    let sum = w.write(&mut out, with_props).map_err(|e| Fail::new("write", e.to_string()))?;
    let want = encode(&m);
    ensure!(out == want, "layout", "written PBO differs from its layout: {}", first_diff(&out, &want));
    ensure!(sum.as_bytes() == &stored_checksum(&want), "checksum-returned", "returned checksum {}", sum.hex());
    // writing again gives the same bytes
    let mut again = Vec::new();
    w.write(&mut again, with_props).map_err(|e| Fail::new("write", e.to_string()))?;
    ensure!(again == out, "write-twice", "a second write of the same PBO differs: {}", first_diff(&again, &out));
    // any insertion order of the files gives the same bytes
    let mut order: Vec<usize> = (0..files.len()).collect();
    d.shuffle(&mut order);
    let mut w2 = WritablePbo::new();
    for i in order {
        w2.add_file(files[i].0.clone(), Cursor::new(files[i].1.clone())).map_err(|e| Fail::new("add", e.to_string()))?;
    }
    for (k, v) in &props {
        w2.add_property(k.clone(), v.clone());
    }
    let mut shuffled = Vec::new();
    w2.write(&mut shuffled, with_props).map_err(|e| Fail::new("write", e.to_string()))?;
    ensure!(shuffled == out, "order-dependent", "insertion order changes the PBO: {}", first_diff(&shuffled, &out));
    // and back
    let mut r = ReadablePbo::from(Choppy { inner: Cursor::new(out.clone()), chunk: d.usize(1, 5000) }).map_err(|e| Fail::new("read", e.to_string()))?;
    check_reader(d, &mut r, &m)?;
    ensure!(r.checksum().as_bytes() == &stored_checksum(&out), "checksum-read", "read checksum {}", r.checksum().hex());
    let g = r.gen_checksum().map_err(|e| Fail::new("read", e.to_string()))?;
    ensure!(g == *r.checksum(), "checksum-regenerated", "regenerated checksum {} but stored {}", g.hex(), r.checksum().hex());
    ensure!(r.is_sorted().is_ok(), "not-sorted", "the written PBO is not sorted");
    Ok(())
}

fn case_variants(d: &mut D, c: &mut Case) -> R {
    // names that differ only by case are distinct entries of a writable PBO; the output must still be a function of its content
    let n = d.usize(2, 5);
    let names = ["Data.sqf", "data.sqf", "DATA.SQF", "dAta.sqf", "DaTa.sqf"];
    let files: Vec<(String, Vec<u8>)> = (0..n).map(|i| (names[i].to_string(), d.bytes(12))).collect();
    c.input(&format!("{files:?}"));
    c.nontrivial(true);
    let mut outs = Vec::new();
    for _ in 0..4 {
        let mut w = WritablePbo::new();
        for (n, x) in &files {
            w.add_file(n.clone(), Cursor::new(x.clone())).map_err(|e| Fail::new("add", e.to_string()))?;
        }
        let mut out = Vec::new();
        w.write(&mut out, true).map_err(|e| Fail::new("write", e.to_string()))?;
        outs.push(out);
    }
    for o in &outs[1..] {
        ensure!(*o == outs[0], "case-variant-order", "two builds of the same files differ: {}", first_diff(o, &outs[0]));
    }
    let m = decode(&outs[0]).map_err(|e| Fail::new("layout", e))?;
    ensure!(m.checksum_ok, "layout", "checksum");
    let mut got: Vec<_> = m.model.entries.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
    let mut want = files;
    got.sort();
    want.sort();
    ensure!(got == want, "case-variant-content", "entries {got:?}, written {want:?}");
    Ok(())
}

const V2: &[&str] = &["fxy", "jpg", "lip", "ogg", "p3d", "paa", "pac", "png", "rtm", "rvmat", "tga", "wrp", "wss"];
const V3: &[&str] = &["bikb", "cfg", "ext", "fsm", "h", "hpp", "inc", "sqf", "sqfc", "sqm", "sqs"];

/// The three inputs of a signature, from the published scheme.
pub struct Hashes {
    pub checksum: [u8; 20],
    pub names: [u8; 20],
    pub files: [u8; 20],
}
pub fn hashes(m: &Model, v3: bool) -> Hashes {
    let c = canonical(m);
    let checksum = stored_checksum(&encode(&c));
    let mut names = Vec::new();
    let mut files = Vec::new();
    let mut any = false;
    for e in &c.entries {
        if !e.data.is_empty() {
            let b = raw(&e.name);
            match String::from_utf8(b) {
                Ok(s) => names.extend(fold(&s).bytes()),
                Err(e) => names.extend(e.into_bytes().iter().map(|b| if *b == b'/' { b'\\' } else { b.to_ascii_lowercase() })),
            }
        }
        let ext = e.name.rsplit_once('.').map_or("", |x| x.1);
        if (if v3 { V3 } else { V2 }).contains(&ext) {
            any = true;
            files.extend(&e.data);
        }
    }
    if !any {
        files.extend(if v3 { b"gnihton" } else { b"nothing" });
    }
    Hashes { checksum, names: vpc::sha::sha1(&names), files: vpc::sha::sha1(&files) }
}

fn foreign(d: &mut D, c: &mut Case) -> R {
    let slashes = d.chance(1, 4);
    let m = gen::foreign_pbo(d, if slashes { &['\\', '/'] } else { &['\\'] });
    c.input(&show(&m));
    c.nontrivial(m.entries.len() >= 2);
    c.note_if(m.entries.iter().any(|e| e.name.contains('/')), "names with /");
    let bytes = encode(&m);
    let mut r = ReadablePbo::from(Choppy { inner: Cursor::new(bytes.clone()), chunk: d.usize(1, 3000) }).map_err(|e| Fail::new("read", e.to_string()))?;
    check_reader(d, &mut r, &m)?;
    let sorted = canonical(&m).entries.iter().map(|e| &e.name).eq(m.entries.iter().map(|e| &e.name));
    ensure!(r.is_sorted().is_ok() == sorted, "is-sorted", "is_sorted is {} for {:?}", r.is_sorted().is_ok(), m.entries.iter().map(|e| &e.name).collect::<Vec<_>>());
    c.note(if sorted { "sorted" } else { "unsorted" });
    c.note_if(!m.vers, "no property entry");
    for v3 in [false, true] {
        let h = hashes(&m, v3);
        let g = r.gen_checksum().map_err(|e| Fail::new("read", e.to_string()))?;
        ensure!(g.as_bytes() == &h.checksum, "gen-checksum", "gen_checksum {} for {}", g.hex(), show(&m));
        let ver = if v3 { BISignVersion::V3 } else { BISignVersion::V2 };
        let f = r.hash_files(ver).map_err(|e| Fail::new("read", e.to_string()))?;
        ensure!(f.as_bytes() == &h.files, "hash-files", "hash_files({ver}) of {}", show(&m));
        match r.hash_filenames() {
            Ok(n) => {
                ensure!(!m.entries.is_empty(), "hash-filenames", "a hash for no files");
                ensure!(n.as_bytes() == &h.names, "hash-filenames", "hash_filenames of {}", show(&m));
            }
            Err(e) => ensure!(m.entries.is_empty(), "hash-filenames", "hash_filenames failed: {e}"),
        }
    }
    Ok(())
}

fn exercise<I: std::io::Read + std::io::Seek>(r: &mut ReadablePbo<I>) {
    let _ = r.gen_checksum();
    let _ = r.hash_filenames();
    let _ = r.hash_files(BISignVersion::V2);
    let _ = r.hash_files(BISignVersion::V3);
    let _ = r.is_sorted();
    for h in r.files_sorted() {
        let _ = r.file_offset(h.filename());
        if let Ok(Some(mut f)) = r.file(h.filename()) {
            let _ = std::io::copy(&mut f, &mut std::io::sink());
        }
    }
}

fn damaged(d: &mut D, c: &mut Case) -> R {
    let m = gen::foreign_pbo(d, &['\\', '/']);
    let good = encode(&m);
    let mut b = good.clone();
    let how = d.below(4);
    match how {
        0 => {
            let n = d.usize(0, b.len() - 1);
            b.truncate(n);
        }
        1 => {
            let e = d.bytes(60);
            b.extend(&e);
            if e.is_empty() {
                b.push(0);
            }
        }
        _ => gen::mutate(d, &mut b),
    }
    c.input_bytes(&b);
    c.nontrivial(b != good);
    c.note(["truncated", "extended", "mutated", "mutated"][how as usize]);
    let r = ReadablePbo::from(Choppy { inner: Cursor::new(b.clone()), chunk: 1 << 20 });
    match r {
        Err(_) => {
            c.note("rejected");
            ensure!(b != good, "read", "a well-formed PBO is rejected");
        }
        Ok(mut r) => {
            c.note("accepted");
            ensure!(how > 1, "malformed-accepted", "a {} PBO is accepted", if how == 0 { "truncated" } else { "over-long" });
            exercise(&mut r);
            if let Ok(dec) = decode(&b) {
                let dup = {
                    let mut s = std::collections::HashSet::new();
                    dec.model.props.iter().any(|p| !s.insert(p.0.clone())) || { s.clear(); dec.model.entries.iter().any(|e| !s.insert(fold(&e.name))) }
                };
                if !dup && dec.model.entries.iter().all(|e| !e.name.contains('/')) {
                    check_reader(d, &mut r, &dec.model)?;
                }
            }
        }
    }
    Ok(())
}

/// A property value in a legacy encoding does not shift the file contents.
fn legacy_values(d: &mut D, c: &mut Case) -> R {
    let files = gen::pbo_files(d, 5, 200, &['\\']);
    let marker = "QQQQ";
    let m = Model { vers: true, props: vec![("prefix".into(), "x\\y".into()), ("author".into(), marker.into())], entries: files.iter().map(|f| Entry::new(&f.0, &f.1)).collect() };
    let mut b = encode(&m);
    let at = b.windows(4).position(|w| w == marker.as_bytes()).unwrap();
    for i in 0..4 {
        b[at + i] = *d.pick(&[b'a', 0xe9, 0xfc, 0x80, 0xff]);
    }
    c.input_bytes(&b);
    c.nontrivial(!m.entries.is_empty() && std::str::from_utf8(&b[at..at + 4]).is_err());
    let mut r = ReadablePbo::from(Cursor::new(b)).map_err(|e| Fail::new("read", e.to_string()))?;
    for e in &m.entries {
        let mut got = Vec::new();
        match r.file(&e.name) {
            Ok(Some(mut f)) => {
                f.read_to_end(&mut got).map_err(|e| Fail::new("read-error", e.to_string()))?;
            }
            x => fail!("file-missing", "{:?}: {}", e.name, x.is_ok()),
        }
        ensure!(got == e.data, "legacy-value-shifts-content", "content of {:?}: {}", e.name, first_diff(&got, &e.data));
    }
    Ok(())
}

fn write_faults(d: &mut D, c: &mut Case) -> R {
    let mut files = gen::pbo_files(d, 6, 9000, &['\\']);
    let big = d.chance(1, 8);
    if big {
        let n = d.usize(1_000_001, 1_100_000);
        let data = d.bulk(n);
        files.retain(|f| fold(&f.0) != "big.p3d");
        files.push(("big.p3d".into(), data));
    }
    let props = gen::pbo_props(d);
    let m = expected(&files, Some(&props));
    let want = encode(&m);
    let full = d.chance(1, 6);
    let left = if full { want.len() } else { d.usize(0, want.len() - 1) };
    let chunk = if d.bool() { usize::MAX } else { d.usize(1, 4000) };
    c.input(&format!("fails after {left} of {} bytes, chunk {chunk}: {}", want.len(), files.len()));
    c.nontrivial(!full && left > 0);
    c.note_if(big, "file over 1 MB (threaded path)");
    let mut w = WritablePbo::new();
    for (n, data) in &files {
        w.add_file(n.clone(), Cursor::new(data.clone())).map_err(|e| Fail::new("add", e.to_string()))?;
    }
    for (k, v) in &props {
        w.add_property(k.clone(), v.clone());
    }
    let mut o = Failing::new(left, chunk);
    let r = w.write(&mut o, true);
    if full {
        ensure!(r.is_ok(), "write", "write fails: {}", r.err().map(|e| e.to_string()).unwrap_or_default());
        ensure!(o.got == want, "short-writes", "short writes change the output: {}", first_diff(&o.got, &want));
    } else {
        ensure!(r.is_err(), "write-fault-hidden", "the output device failed after {left} of {} bytes, but the write reports success", want.len());
        ensure!(want.starts_with(&o.got), "write-fault-garbage", "bytes written before the fault are not a prefix of the PBO");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "B01",
            level: "exploration",
            rule: "write/variants: at least two files, one with content (or case-variant names); each distinct by full content",
            facets: vec![Facet::new("write_read", 6_000, 200_000, write_read), Facet::new("case_variants", 400, 4_000, case_variants)],
            probes: vec![],
            assumptions: &["names are unique under case folding, except in the facet case_variants"],
        },
        Property {
            id: "B02",
            level: "exploration",
            rule: "at least two entries, or bytes that differ from a well-formed PBO, or a legacy-encoded value before file data",
            facets: vec![
                Facet::new("foreign", 8_000, 300_000, foreign),
                Facet::new("damaged", 30_000, 1_500_000, damaged).hang(30),
                Facet::new("legacy_values", 2_000, 40_000, legacy_values),
            ],
            probes: vec![],
            assumptions: &["names are valid UTF-8"],
        },
        Property {
            id: "B03",
            level: "fault_enumeration",
            rule: "the injected device failure lies strictly inside the output",
            facets: vec![Facet::new("write_faults", 4_000, 100_000, write_faults)],
            probes: vec![],
            assumptions: &[],
        },
    ]
}
