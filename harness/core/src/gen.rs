//! Generators shared between the check binaries.
use crate::draw::D;
use crate::pbo::{Entry, Model};
use std::collections::HashSet;

const SEG: &[&str] = &["a", "b", "data", "Functions", "fnc_init", "x", "UI", "README", "z_9", "config", "été", "Ünïcode", "Σίσυφος", "$PBOPREFIX$", "my file", "A1-b"];
const EXT: &[&str] = &["", ".sqf", ".paa", ".p3d", ".bin", ".hpp", ".rvmat", ".txt", ".SQF", ".h", ".ogg", ".wss", ".sqfc", ".ext", ".tga", ".fxy", ".jpg", ".lip", ".pac", ".png", ".rtm", ".wrp", ".bikb", ".cfg", ".fsm", ".inc", ".sqm", ".sqs", ".xml", ".tar.gz"];

/// A PBO file name with the given separator (never starting with a dot or a separator).
pub fn pbo_name(d: &mut D, sep: &[char]) -> String {
    let n = d.usize(1, 3);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(*d.pick(sep));
        }
        let seg = *d.pick(SEG);
        s.push_str(seg);
        if d.chance(1, 3) {
            let t = d.string_of(&['a', 'B', '0', '_', '-', 'z', 'É', ' ', '.'], 1, 3);
            s.push_str(t.trim_end_matches('.'));
        }
    }
    s.push_str(d.pick(EXT));
    s
}

pub fn fold(s: &str) -> String {
    s.replace('/', "\\").to_lowercase()
}

/// Files with names unique under case folding, in any order.
pub fn pbo_files(d: &mut D, max: usize, max_len: usize, sep: &[char]) -> Vec<(String, Vec<u8>)> {
    let mut seen = HashSet::new();
    d.vec(max, |d| (pbo_name(d, sep), pbo_data(d, max_len))).into_iter().filter(|(n, _)| seen.insert(fold(n))).collect()
}

pub fn pbo_data(d: &mut D, max: usize) -> Vec<u8> {
    match d.weighted(&[2, 6, 1]) {
        0 => vec![],
        1 => d.bytes(max.min(200)),
        _ => {
            let n = d.usize(0, max);
            d.bulk(n)
        }
    }
}

pub fn prop_str(d: &mut D, empty_ok: bool) -> String {
    let lo = usize::from(!empty_ok);
    match d.below(6) {
        0 => (*d.pick(&["version", "author", "prefix", "hemtt", "git", "product", "Prefix"])).into(),
        1 => (*d.pick(&["z\\mod\\addons\\main", "\\z\\mod", "x\\y\\", "1.2.3.4", "ü\\é"])).into(),
        _ => d.string_of(&['a', 'b', 'Z', '_', '0', '\\', '/', ' ', 'é', '.'], lo, 8),
    }
}

/// Properties with distinct keys.
pub fn pbo_props(d: &mut D) -> Vec<(String, String)> {
    let mut seen = HashSet::new();
    d.vec(5, |d| (prop_str(d, false), prop_str(d, true))).into_iter().filter(|(k, _)| seen.insert(k.clone())).collect()
}

/// A PBO as a foreign tool may have written it: any order, any timestamps, compressed entries.
pub fn foreign_pbo(d: &mut D, sep: &[char]) -> Model {
    let vers = d.chance(3, 4);
    let props = if vers { pbo_props(d) } else { vec![] };
    let entries = pbo_files(d, 8, 3000, sep)
        .into_iter()
        .map(|(name, data)| Entry {
            mime: *d.pick(&[0u32, 0, 0, 0x4370_7273, 0x456e_6372]),
            original: if d.bool() { d.below(1 << 32) as u32 } else { data.len() as u32 },
            reserved: if d.chance(1, 4) { d.below(1 << 32) as u32 } else { 0 },
            timestamp: if d.bool() { d.below(1 << 32) as u32 } else { 0 },
            name,
            data,
        })
        .collect();
    let mut m = Model { vers, props, entries };
    // strings in a legacy encoding
    if d.chance(1, 4) {
        for _ in 0..d.usize(1, 3) {
            let c = crate::pbo::legacy(*d.pick(&[0xe9, 0xc9, 0x80, 0xff, 0xc3]));
            let into = |d: &mut D, s: &mut String| {
                let at = d.usize(0, s.chars().count());
                *s = s.chars().take(at).chain([c]).chain(s.chars().skip(at)).collect();
                *s = crate::pbo::model(&crate::pbo::raw(s));
            };
            if !m.props.is_empty() && d.bool() {
                let i = d.usize(0, m.props.len() - 1);
                let (k, v) = &mut m.props[i];
                let key = d.bool();
                into(d, if key { k } else { v });
            } else if !m.entries.is_empty() {
                let i = d.usize(0, m.entries.len() - 1);
                into(d, &mut m.entries[i].name);
            }
        }
        // they may read the same now
        let mut seen = HashSet::new();
        m.props.retain(|p| seen.insert(crate::pbo::shown(&p.0)));
        let mut seen = HashSet::new();
        m.entries.retain(|e| seen.insert(fold(&crate::pbo::shown(&e.name))));
    }
    m
}

/// Damage bytes: flips, truncation, insertion, deletion, duplication, extreme integers.
pub fn mutate(d: &mut D, b: &mut Vec<u8>) {
    let n = d.usize(1, 4);
    for _ in 0..n {
        if b.is_empty() {
            b.push(d.u8());
            continue;
        }
        let at = if d.chance(1, 3) { d.usize(0, (b.len() - 1).min(120)) } else { d.usize(0, b.len() - 1) };
        match d.below(8) {
            0 => b[at] ^= 1 << d.below(8),
            1 => b[at] = d.u8(),
            2 => b.truncate(at),
            3 => {
                let v = d.u8();
                b.insert(at, v);
            }
            4 => {
                let n = d.usize(1, (b.len() - at).min(40));
                b.drain(at..at + n);
            }
            5 => {
                let n = d.usize(1, (b.len() - at).min(40));
                let c: Vec<u8> = b[at..at + n].to_vec();
                b.splice(at..at, c);
            }
            6 => {
                let v: u32 = *d.pick(&[0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x0001_0000, 0xffff]);
                for (i, x) in v.to_le_bytes().iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = *x;
                    }
                }
            }
            _ => {
                let e = d.bytes(40);
                b.extend(e);
            }
        }
    }
}

/// A reader that returns short reads, as the `Read` contract allows.
pub struct Choppy {
    pub inner: std::io::Cursor<Vec<u8>>,
    pub chunk: usize,
}
impl std::io::Read for Choppy {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.chunk);
        self.inner.read(&mut buf[..n])
    }
}
impl std::io::Seek for Choppy {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(p)
    }
}

/// A writer that accepts `left` bytes in pieces of at most `chunk`, then fails.
pub struct Failing {
    pub got: Vec<u8>,
    pub left: usize,
    pub chunk: usize,
    pub failed: bool,
}
impl Failing {
    pub fn new(left: usize, chunk: usize) -> Self {
        Self { got: vec![], left, chunk: chunk.max(1), failed: false }
    }
}
impl std::io::Write for Failing {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = buf.len().min(self.chunk).min(self.left);
        if n == 0 {
            self.failed = true;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected: device full"));
        }
        self.left -= n;
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
