//! Models: reading and writing P3D files, and the files they refer to.
use hemtt_p3d::{Face, Point, SearchCache, Vertex, LOD, P3D};
use std::collections::{BTreeSet, HashSet};
use std::io::Cursor;
use vpc::gen::{mutate, Choppy, Failing};
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

#[derive(Debug, Clone, Default)]
struct MVertex(u32, u32, u32, u32);
#[derive(Debug, Clone)]
struct MFace {
    vertices: Vec<MVertex>,
    /// what follows the third vertex of a triangle
    unused: MVertex,
    flags: u32,
    texture: String,
    material: String,
}
#[derive(Debug, Clone)]
struct MLod {
    version: (u32, u32),
    flags: u32,
    points: Vec<[u32; 4]>,
    normals: Vec<[u32; 3]>,
    faces: Vec<MFace>,
    taggs: Vec<(u8, String, Vec<u8>)>,
    resolution: u32,
}
#[derive(Debug, Clone)]
struct Model {
    version: u32,
    lods: Vec<MLod>,
}

fn word(d: &mut D) -> u32 {
    match d.below(4) {
        0 => d.below(6) as u32,
        1 => (d.i64(-1000, 1000) as f32 / 8.0).to_bits(),
        2 => *d.pick(&[0, 1, u32::MAX, 0x7f80_0000, 0xff80_0000, 0x8000_0000, 0x3f80_0000, 0x7fc0_0000, 0x7fc0_1234, 256, 0x0100_0000]),
        _ => d.raw() as u32,
    }
}
fn vertex(d: &mut D) -> MVertex {
    MVertex(word(d), word(d), word(d), word(d))
}
fn file_name(d: &mut D) -> String {
    if d.chance(1, 8) {
        return String::new();
    }
    if d.chance(1, 8) {
        return "#(argb,8,8,3)color(1,1,1,1,CO)".into();
    }
    d.string_of(&['a', 'b', '\\', '/', 'é', '.', 'T', ' ', '_'], 0, 12)
}
fn tagg(d: &mut D) -> (u8, String, Vec<u8>) {
    let name = match d.below(4) {
        0 => "#Property#".to_string(),
        1 => (*d.pick(&["#SharpEdges#", "#UVSet#", "#Mass#", "#Selected#", "#Animation#", "#EndOfFile", "EndOfFile#", "#endoffile#", "#ENDOFFILE#", "#EndOfFile##", " #EndOfFile#"])).to_string(),
        _ => d.string_of(&['a', 'b', '#', '_', 'é', ' ', 'P'], 0, 6),
    };
    // an inactive tagg is kept as any other
    (if d.chance(1, 6) { 0 } else { 1 }, name, d.bytes(20))
}
fn model(d: &mut D) -> Model {
    let lods = d.vec(3, |d| MLod {
        version: (word(d), word(d)),
        flags: if d.bool() { 0 } else { word(d) },
        points: d.vec(5, |d| [word(d), word(d), word(d), word(d)]),
        normals: d.vec(4, |d| [word(d), word(d), word(d)]),
        faces: d.vec(4, |d| {
            let n = d.usize(3, 4);
            MFace { vertices: d.vec_between(n, n, vertex), unused: if d.bool() { MVertex::default() } else { vertex(d) }, flags: word(d), texture: file_name(d), material: file_name(d) }
        }),
        taggs: d.vec(5, tagg),
        resolution: word(d),
    });
    Model { version: word(d), lods }
}

/// The file, by the published description of the format.
fn encode(m: &Model) -> Vec<u8> {
    fn w(o: &mut Vec<u8>, v: &[u32]) {
        for x in v {
            o.extend(x.to_le_bytes());
        }
    }
    let mut o = b"MLOD".to_vec();
    w(&mut o, &[m.version, m.lods.len() as u32]);
    for l in &m.lods {
        o.extend(b"P3DM");
        w(&mut o, &[l.version.0, l.version.1, l.points.len() as u32, l.normals.len() as u32, l.faces.len() as u32, l.flags]);
        l.points.iter().for_each(|p| w(&mut o, p));
        l.normals.iter().for_each(|p| w(&mut o, p));
        for f in &l.faces {
            w(&mut o, &[f.vertices.len() as u32]);
            for v in &f.vertices {
                w(&mut o, &[v.0, v.1, v.2, v.3]);
            }
            if f.vertices.len() == 3 {
                w(&mut o, &[f.unused.0, f.unused.1, f.unused.2, f.unused.3]);
            }
            w(&mut o, &[f.flags]);
            o.extend(f.texture.as_bytes());
            o.push(0);
            o.extend(f.material.as_bytes());
            o.push(0);
        }
        o.extend(b"TAGG");
        for (active, name, data) in &l.taggs {
            o.push(*active);
            o.extend(name.as_bytes());
            o.push(0);
            w(&mut o, &[data.len() as u32]);
            o.extend(data);
        }
        o.extend(b"\x01#EndOfFile#\0\0\0\0\0");
        w(&mut o, &[l.resolution]);
    }
    o
}
/// What the library keeps of a file.
fn kept(m: &Model) -> Model {
    let mut m = m.clone();
    for l in &mut m.lods {
        l.flags = 0;
        for f in &mut l.faces {
            f.unused = MVertex::default();
        }
        for t in &mut l.taggs {
            t.0 = 1;
        }
    }
    m
}
/// The same model, built by hand.
fn build(m: &Model) -> P3D {
    let f = f32::from_bits;
    P3D {
        version: m.version,
        lods: m
            .lods
            .iter()
            .map(|l| LOD {
                version_major: l.version.0,
                version_minor: l.version.1,
                resolution: f(l.resolution),
                points: l.points.iter().map(|p| Point { coords: (f(p[0]), f(p[1]), f(p[2])), flags: p[3] }).collect(),
                face_normals: l.normals.iter().map(|p| (f(p[0]), f(p[1]), f(p[2]))).collect(),
                faces: l
                    .faces
                    .iter()
                    .map(|x| Face {
                        vertices: x.vertices.iter().map(|v| Vertex { point_index: v.0, normal_index: v.1, uv: (f(v.2), f(v.3)) }).collect(),
                        flags: x.flags,
                        texture: x.texture.clone(),
                        material: x.material.clone(),
                    })
                    .collect(),
                taggs: l.taggs.iter().map(|(_, n, b)| (n.clone(), b.clone().into_boxed_slice())).collect(),
            })
            .collect(),
    }
}
/// All that can be seen of a model.
fn seen(p: &P3D) -> String {
    use std::fmt::Write;
    let mut s = format!("v{}\n", p.version);
    for l in &p.lods {
        let _ = writeln!(s, "lod {} {} r{:x}", l.version_major, l.version_minor, l.resolution.to_bits());
        for p in &l.points {
            let _ = writeln!(s, "p {:x} {:x} {:x} {}", p.coords.0.to_bits(), p.coords.1.to_bits(), p.coords.2.to_bits(), p.flags);
        }
        for p in &l.face_normals {
            let _ = writeln!(s, "n {:x} {:x} {:x}", p.0.to_bits(), p.1.to_bits(), p.2.to_bits());
        }
        for f in &l.faces {
            let _ = write!(s, "f {} {:?} {:?}", f.flags, f.texture, f.material);
            for v in &f.vertices {
                let _ = write!(s, " ({} {} {:x} {:x})", v.point_index, v.normal_index, v.uv.0.to_bits(), v.uv.1.to_bits());
            }
            s.push('\n');
        }
        for (n, b) in &l.taggs {
            let _ = writeln!(s, "t {n:?} {b:?}");
        }
    }
    s
}
fn told(m: &Model) -> String {
    use std::fmt::Write;
    let mut s = format!("v{}\n", m.version);
    for l in &m.lods {
        let _ = writeln!(s, "lod {} {} r{:x}", l.version.0, l.version.1, l.resolution);
        for p in &l.points {
            let _ = writeln!(s, "p {:x} {:x} {:x} {}", p[0], p[1], p[2], p[3]);
        }
        for p in &l.normals {
            let _ = writeln!(s, "n {:x} {:x} {:x}", p[0], p[1], p[2]);
        }
        for f in &l.faces {
            let _ = write!(s, "f {} {:?} {:?}", f.flags, f.texture, f.material);
            for v in &f.vertices {
                let _ = write!(s, " ({} {} {:x} {:x})", v.0, v.1, v.2, v.3);
            }
            s.push('\n');
        }
        for (_, n, b) in &l.taggs {
            let _ = writeln!(s, "t {n:?} {b:?}");
        }
    }
    s
}
fn first_difference(a: &str, b: &str) -> String {
    let n = a.lines().zip(b.lines()).take_while(|(x, y)| x == y).count();
    format!("line {n}: {:?} instead of {:?}", a.lines().nth(n), b.lines().nth(n))
}

fn round_trip(d: &mut D, c: &mut Case) -> R {
    let m = model(d);
    let file = encode(&m);
    c.input_bytes(&file);
    c.nontrivial(m.lods.iter().any(|l| !l.faces.is_empty() || !l.taggs.is_empty()));
    let many = m.lods.iter().any(|l| {
        let mut s = HashSet::new();
        l.taggs.iter().any(|t| !s.insert(&t.1))
    });
    c.note_if(many, "tagg name twice");
    c.note_if(m.lods.iter().any(|l| l.faces.iter().any(|f| f.vertices.len() == 3)), "triangle");
    c.note_if(m.lods.iter().any(|l| l.faces.iter().any(|f| f.vertices.len() == 4)), "quad");
    c.note_if(m.lods.len() > 1, "several LODs");
    let chunk = if d.bool() { usize::MAX } else { d.usize(1, 9) };
    let p = P3D::read(&mut Choppy { inner: Cursor::new(file.clone()), chunk }).map_err(|e| Fail::new("rejected", e.to_string()))?;
    let (got, want) = (seen(&p), told(&m));
    ensure!(got == want, "read", "{}", first_difference(&got, &want));
    // and back
    let expected = encode(&kept(&m));
    for (what, p) in [("read", &p), ("built", &build(&m))] {
        let mut out = Failing::new(usize::MAX, d.usize(1, 4000));
        p.write(&mut out).map_err(|e| Fail::new("not written", e.to_string()))?;
        ensure!(out.got == expected, "written", "a {what} model is written with a difference at byte {} of {}", out.got.iter().zip(&expected).take_while(|(a, b)| a == b).count(), expected.len());
    }
    // an output that fails at any point
    let left = d.usize(0, expected.len() - 1);
    let mut bad = Failing::new(left, d.usize(1, 50));
    ensure!(p.write(&mut bad).is_err(), "lost", "{left} of {} bytes were written without an error", expected.len());
    // a file that is cut short at any point
    let n = d.usize(0, file.len() - 1);
    ensure!(P3D::read(&mut Cursor::new(&file[..n])).is_err(), "cut short", "a model is read from {n} of {} bytes", file.len());
    Ok(())
}

/// Models as they are made for the game, with many points and faces and long lists
fn large(d: &mut D, c: &mut Case) -> R {
    let mut m = model(d);
    if m.lods.is_empty() {
        return Ok(());
    }
    let k = d.usize(0, m.lods.len() - 1);
    let l = &mut m.lods[k];
    let n = (if d.bool() { 1usize << 16 } else { d.usize(300, 80_000) }) + d.usize(0, 3);
    let some = d.raw();
    let v = |i: usize, k: u64| (some.wrapping_mul(i as u64 * 4 + k + 1) >> 20) as u32;
    let what = d.usize(0, 4);
    match what {
        0 => l.points.extend((0..n).map(|i| [v(i, 0), v(i, 1), v(i, 2), v(i, 3)])),
        1 => l.normals.extend((0..n).map(|i| [v(i, 0), v(i, 1), v(i, 2)])),
        2 => {
            let few: Vec<MFace> = d.vec_between(1, 3, |d| {
                let n = d.usize(3, 4);
                MFace { vertices: d.vec_between(n, n, vertex), unused: MVertex::default(), flags: word(d), texture: file_name(d), material: file_name(d) }
            });
            l.faces.extend((0..n).map(|i| MFace { flags: v(i, 0), ..few[i % few.len()].clone() }));
        }
        3 => {
            let size = n * *d.pick(&[1, 16, 40]);
            l.taggs.push((1, "#Selected#".into(), d.bulk(size)));
        }
        _ => {
            let long = "x".repeat(d.usize(200, 5000));
            l.taggs.push((1, format!("sel{long}"), d.bytes(20)));
            l.faces.iter_mut().for_each(|f| f.texture.push_str(&long));
        }
    }
    let file = encode(&m);
    c.input(&format!("part {what} of {n}: {} bytes, {:02x?}", file.len(), vpc::sha::sha1(&file)));
    c.nontrivial(true);
    c.note(["points", "normals", "faces", "bytes", "names"][what]);
    let p = P3D::read(&mut Cursor::new(&file)).map_err(|e| Fail::new("rejected", e.to_string()))?;
    let (got, want) = (seen(&p), told(&m));
    ensure!(got == want, "read", "{}", first_difference(&got, &want));
    let mut out = Vec::new();
    p.write(&mut out).map_err(|e| Fail::new("not written", e.to_string()))?;
    ensure!(out == encode(&kept(&m)), "written", "a large model is written with a difference");
    let n = d.usize(0, file.len() - 1);
    ensure!(P3D::read(&mut Cursor::new(&file[..n])).is_err(), "cut short", "a model is read from {n} of {} bytes", file.len());
    Ok(())
}

fn damaged(d: &mut D, c: &mut Case) -> R {
    let mut m = model(d);
    let mut must_fail = false;
    if d.chance(1, 3) {
        let all: Vec<(usize, usize)> = m.lods.iter().enumerate().flat_map(|(i, l)| (0..l.faces.len()).map(move |j| (i, j))).collect();
        if !all.is_empty() {
            let (i, j) = *d.pick(&all);
            let n = *d.pick(&[0usize, 1, 2, 5, 6]);
            m.lods[i].faces[j].vertices = d.vec_between(n, n, vertex);
            must_fail = true;
            c.note("face with another number of vertices");
            ensure!(build(&m).write(&mut Vec::new()).is_err(), "written", "a face with {n} vertices");
        }
    }
    let mut file = encode(&m);
    if !must_fail {
        match d.below(4) {
            0 => {
                file[d.usize(0, 3)] ^= 1 << d.below(8);
                must_fail = true;
                c.note("another kind of file");
            }
            1 if !m.lods.is_empty() => {
                file[12 + d.usize(0, 3)] ^= 1 << d.below(8);
                must_fail = true;
                c.note("another kind of LOD");
            }
            _ => {
                mutate(d, &mut file);
                c.note("changed");
            }
        }
    }
    c.input_bytes(&file);
    c.nontrivial(file.len() > 12);
    match P3D::read(&mut Cursor::new(&file)) {
        Err(_) => c.note("rejected"),
        Ok(p) => {
            ensure!(!must_fail, "accepted", "a model with {} LODs", p.lods.len());
            c.note("accepted");
            // everything in it is from the file, so it is not larger
            let mut out = Vec::new();
            p.write(&mut out).map_err(|e| Fail::new("not written", e.to_string()))?;
            // what is not UTF-8 is longer in it
            let more = file.iter().filter(|b| **b >= 0x80).count();
            ensure!(out.len() <= file.len() + more, "larger", "{} bytes become {}", file.len(), out.len());
            let again = P3D::read(&mut Cursor::new(&out)).map_err(|e| Fail::new("rejected again", e.to_string()))?;
            ensure!(seen(&again) == seen(&p), "changed by a round trip", "{}", first_difference(&seen(&again), &seen(&p)));
        }
    }
    Ok(())
}

// ---- the files a model refers to ----

const DIRS: &[&str] = &["vpz", "vpz/data", "vpz/d.paa", "vpz/x.tga.d"];
const STEMS: &[&str] = &["a#1", "#b", "body", "body_co", "x.paa", "x.tga", "x.png.b", "été"];
const EXTS: &[&str] = &[".paa", ".tga", ".png", ".rvmat", ".jpg", "", ".paax", ".tga.paa"];

fn reference(d: &mut D) -> String {
    match d.weighted(&[1, 1, 12]) {
        0 => String::new(),
        1 => (*d.pick(&["#(argb,8,8,3)color(1,1,1,1,CO)", "#(rgb,1,1,1)tex(vpz\\body.paa)", "#missing.paa"])).into(),
        _ => {
            let s = format!("{}{}/{}{}", if d.bool() { "/" } else { "" }, d.pick(DIRS), d.pick(STEMS), d.pick(EXTS));
            if d.chance(3, 4) {
                s.replace('/', "\\")
            } else {
                s
            }
        }
    }
}
fn refers(d: &mut D, c: &mut Case) -> R {
    let mut files = Vec::new();
    let mut there = HashSet::new();
    for _ in 0..d.usize(0, 8) {
        let f = format!("{}/{}{}", d.pick(DIRS), d.pick(STEMS), d.pick(EXTS));
        // a folder is not a file
        if !DIRS.contains(&f.as_str()) && there.insert(f.clone()) {
            files.push((f, String::from("x")));
        }
    }
    let pool: Vec<String> = d.vec_between(1, 8, reference);
    let models: Vec<Vec<(String, String)>> = d.vec_between(1, 3, |d| d.vec(6, |d| (d.pick(&pool).clone(), if d.chance(1, 3) { d.pick(&pool).clone() } else { reference(d) })));
    c.input(&format!("files {files:?}\nmodels {models:?}"));
    let ws = crate::ws::memory(&files);
    let cache = SearchCache::new();
    let mut found = false;
    for faces in &models {
        let lods = d.usize(1, 2);
        let p = P3D {
            version: 257,
            lods: (0..lods)
                .map(|i| LOD {
                    version_major: 28,
                    version_minor: 256,
                    resolution: i as f32,
                    points: vec![],
                    face_normals: vec![],
                    faces: faces.iter().skip(i).step_by(lods).map(|(t, m)| Face { vertices: vec![], flags: 0, texture: t.clone(), material: m.clone() }).collect(),
                    taggs: Default::default(),
                })
                .collect(),
        };
        let path = |s: &str| format!("\\{}", s.trim_start_matches(['\\', '/']));
        let has = |s: &str| there.contains(path(s).replace('\\', "/").trim_start_matches('/'));
        let textures: BTreeSet<String> = faces
            .iter()
            .map(|f| f.0.as_str())
            .filter(|t| {
                let swap = |from: &str, to: &str| t.strip_suffix(from).is_some_and(|b| has(&format!("{b}{to}")));
                !t.is_empty() && !t.starts_with('#') && !has(t) && !swap(".paa", ".tga") && !swap(".tga", ".paa") && !swap(".png", ".paa")
            })
            .map(|t| path(t).replace('/', "\\"))
            .collect();
        let materials: BTreeSet<String> = faces.iter().map(|f| f.1.as_str()).filter(|m| !m.is_empty() && !has(m)).map(|m| path(m).replace('/', "\\")).collect();
        found |= !textures.is_empty() || !materials.is_empty();
        for (what, cache) in [("alone", &SearchCache::new()), ("after the others", &cache)] {
            let (t, m) = p.missing(&ws, cache).map_err(|e| Fail::new("error", e.to_string()))?;
            for (kind, got, want) in [("textures", t, &textures), ("materials", m, &materials)] {
                let set: BTreeSet<String> = got.iter().map(|s| path(s).replace('/', "\\")).collect();
                ensure!(set == *want, kind, "{kind} of {faces:?} {what}: {got:?} are reported as missing, {want:?} are");
            }
        }
    }
    c.nontrivial(found && !files.is_empty());
    c.note_if(models.len() > 1, "shared cache");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "M01",
            level: "exploration",
            rule: "the model has a face or named data, or is damaged",
            facets: vec![Facet::new("round_trip", 30_000, 1_500_000, round_trip), Facet::new("large", 60, 3000, large).hang(60), Facet::new("damaged", 60_000, 4_000_000, damaged).hang(30)],
            probes: vec![],
            assumptions: &[],
        },
        Property { id: "M02", level: "exploration", rule: "the workspace has files, and the model refers to one that is not there", facets: vec![Facet::new("missing", 20_000, 800_000, refers)], probes: vec![], assumptions: &[] },
    ]
}
