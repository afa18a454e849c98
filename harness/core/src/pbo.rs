//! An independent reading and writing of the PBO container, from its published layout:
//! optional "Vers" entry with key/value strings, one entry per file, an empty entry,
//! the data of the files in order, a zero byte, and the SHA-1 of everything before it.
use crate::sha::sha1;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Entry {
    pub name: String,
    pub mime: u32,
    pub original: u32,
    pub reserved: u32,
    pub timestamp: u32,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Model {
    pub vers: bool,
    pub props: Vec<(String, String)>,
    pub entries: Vec<Entry>,
}
impl Entry {
    pub fn new(name: &str, data: &[u8]) -> Self {
        Self { name: name.into(), original: data.len() as u32, data: data.to_vec(), ..Self::default() }
    }
}
/// A byte of a string that is not UTF-8, in models.
pub fn legacy(b: u8) -> char {
    char::from_u32(0xe000 + u32::from(b)).unwrap()
}
/// The bytes of a string of a model.
pub fn raw(s: &str) -> Vec<u8> {
    let mut o = Vec::new();
    for c in s.chars() {
        match c as u32 {
            x @ 0xe080..=0xe0ff => o.push(x as u8),
            _ => o.extend(c.to_string().bytes()),
        }
    }
    o
}
/// The string of a model for bytes.
pub fn model(b: &[u8]) -> String {
    std::str::from_utf8(b).map_or_else(|_| b.iter().map(|b| if *b < 0x80 { *b as char } else { legacy(*b) }).collect(), ToString::to_string)
}
/// How a string of a model reads: what is not UTF-8 is Latin-1.
pub fn shown(s: &str) -> String {
    let b = raw(s);
    String::from_utf8(b).unwrap_or_else(|e| e.into_bytes().iter().map(|b| *b as char).collect())
}
const VERS: u32 = 0x5665_7273;

fn put_header(o: &mut Vec<u8>, name: &[u8], f: [u32; 5]) {
    o.extend(name);
    o.push(0);
    for x in f {
        o.extend(x.to_le_bytes());
    }
}

pub fn encode(m: &Model) -> Vec<u8> {
    let mut o = Vec::new();
    if m.vers {
        put_header(&mut o, b"", [VERS, 0, 0, 0, 0]);
        for (k, v) in &m.props {
            o.extend(raw(k));
            o.push(0);
            o.extend(raw(v));
            o.push(0);
        }
        o.push(0);
    }
    for e in &m.entries {
        put_header(&mut o, &raw(&e.name), [e.mime, e.original, e.reserved, e.timestamp, e.data.len() as u32]);
    }
    put_header(&mut o, b"", [0; 5]);
    for e in &m.entries {
        o.extend(&e.data);
    }
    let h = sha1(&o);
    o.push(0);
    o.extend(h);
    o
}

pub struct Decoded {
    pub model: Model,
    /// Start of the file data
    pub blob: usize,
    pub checksum: [u8; 20],
    pub checksum_ok: bool,
}

struct Rd<'a>(&'a [u8], usize);
impl Rd<'_> {
    fn cstr(&mut self) -> Result<String, String> {
        let end = self.0[self.1..].iter().position(|&b| b == 0).ok_or("unterminated string")?;
        let s = model(&self.0[self.1..self.1 + end]);
        self.1 += end + 1;
        Ok(s)
    }
    fn u32(&mut self) -> Result<u32, String> {
        let b = self.0.get(self.1..self.1 + 4).ok_or("truncated")?;
        self.1 += 4;
        Ok(u32::from_le_bytes(b.try_into().unwrap()))
    }
}

pub fn decode(b: &[u8]) -> Result<Decoded, String> {
    let mut r = Rd(b, 0);
    let mut m = Model::default();
    let mut sizes = Vec::new();
    loop {
        let name = r.cstr()?;
        let (mime, original, reserved, timestamp, size) = (r.u32()?, r.u32()?, r.u32()?, r.u32()?, r.u32()?);
        if mime == VERS && name.is_empty() {
            if m.vers {
                return Err("two property entries".into());
            }
            m.vers = true;
            loop {
                let k = r.cstr()?;
                if k.is_empty() {
                    break;
                }
                let v = r.cstr()?;
                m.props.push((k, v));
            }
        } else if name.is_empty() {
            break;
        } else {
            m.entries.push(Entry { name, mime, original, reserved, timestamp, data: vec![] });
            sizes.push(size as usize);
        }
    }
    let blob = r.1;
    let mut at = blob;
    for (e, s) in m.entries.iter_mut().zip(sizes) {
        e.data = b.get(at..at + s).ok_or("file data truncated")?.to_vec();
        at += s;
    }
    let tail = b.get(at..).ok_or("no trailer")?;
    if tail.len() != 21 {
        return Err(format!("trailer has {} bytes instead of 21", tail.len()));
    }
    if tail[0] != 0 {
        return Err("no zero byte before the checksum".into());
    }
    let checksum: [u8; 20] = tail[1..].try_into().unwrap();
    Ok(Decoded { checksum_ok: sha1(&b[..at]) == checksum, model: m, blob, checksum })
}
