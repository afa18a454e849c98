use crate::pbo::{canonical, hashes, show};
use hemtt_pbo::{BISignVersion, ReadablePbo};
use hemtt_signing::{BIPrivateKey, BIPublicKey, BISign};
use rsa::BigUint;
use std::io::Cursor;
use std::sync::OnceLock;
use vpc::gen;
use vpc::pbo::{decode, encode, Entry, Model};
use vpc::sha::sha1;
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

/// Key files kept beside the harness, so that cases replay: (bits, bytes).
const KEYS: &[(u32, &[u8])] = &[
    (1024, include_bytes!("../fixtures/a1024.biprivatekey")),
    (1024, include_bytes!("../fixtures/b1024.biprivatekey")),
    (512, include_bytes!("../fixtures/c512.biprivatekey")),
    (2048, include_bytes!("../fixtures/d2048.biprivatekey")),
];

/// A private key file with another authority name.
fn renamed(bytes: &[u8], authority: &str) -> Vec<u8> {
    let end = bytes.iter().position(|b| *b == 0).unwrap();
    let mut v = authority.as_bytes().to_vec();
    v.extend(&bytes[end..]);
    v
}
fn key(i: usize, authority: &str) -> Result<BIPrivateKey, Fail> {
    BIPrivateKey::read(&mut &renamed(KEYS[i].1, authority)[..]).map_err(|e| Fail::new("private-key-read", e.to_string()))
}

fn authority(d: &mut D) -> String {
    d.string_of(&['a', 'b', 'Z', '_', '0', '.', '-', ' ', 'é'], 1, 12)
}

/// A sorted PBO with at least one file.
fn signable(d: &mut D) -> Model {
    let slashes = d.chance(1, 4);
    let mut m = canonical(&gen::foreign_pbo(d, if slashes { &['\\', '/'] } else { &['\\'] }));
    if m.entries.is_empty() {
        let b = d.bytes(50);
        m.entries.push(Entry::new("config.bin", &b));
    }
    // names that differ by case only, with contents of their own
    if d.chance(1, 6) {
        let i = d.usize(0, m.entries.len() - 1);
        let name = m.entries[i].name.to_ascii_uppercase();
        let b = d.bytes(50);
        m.entries.insert(i + 1, Entry::new(&name, &b));
    }
    if m.vers && d.chance(1, 2) && !m.props.iter().any(|p| p.0 == "prefix") {
        let v = (*d.pick(&["z\\mod\\addons\\main", "x\\y\\", "p"])).to_string();
        m.props.insert(0, ("prefix".into(), v));
    }
    m
}

fn open(m: &Model) -> Result<ReadablePbo<Cursor<Vec<u8>>>, Fail> {
    ReadablePbo::from(Cursor::new(encode(m))).map_err(|e| Fail::new("read", e.to_string()))
}

fn version(d: &mut D) -> BISignVersion {
    *d.pick(&[BISignVersion::V2, BISignVersion::V3])
}

/// The three hashes a signature of the PBO covers, by the published scheme.
fn signed_hashes(m: &Model, v: BISignVersion) -> [[u8; 20]; 3] {
    let h = hashes(m, v == BISignVersion::V3);
    let prefix = m.props.iter().find(|p| p.0 == "prefix").map(|p| {
        let mut s = vpc::pbo::raw(&p.1);
        if !s.ends_with(b"\\") {
            s.push(b'\\');
        }
        s
    });
    let tail = prefix.unwrap_or_default();
    let mut h2 = h.checksum.to_vec();
    h2.extend(h.names);
    h2.extend(&tail);
    let mut h3 = h.files.to_vec();
    h3.extend(h.names);
    h3.extend(&tail);
    [h.checksum, sha1(&h2), sha1(&h3)]
}

/// EMSA-PKCS1-v1_5 of a SHA-1.
fn padded(h: &[u8; 20], bytes: usize) -> BigUint {
    let mut v = vec![0u8, 1];
    v.extend(vec![0xff; bytes - 38]);
    v.extend([0x00, 0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14]);
    v.extend(h);
    assert_eq!(v.len(), bytes);
    BigUint::from_bytes_be(&v)
}

struct SigFile {
    authority: String,
    bits: u32,
    e: BigUint,
    n: BigUint,
    sig: [BigUint; 3],
    version: u32,
}

/// Independent reading of a .bisign / .bikey file.
fn parse_file(b: &[u8], with_sigs: bool) -> Result<SigFile, String> {
    let end = b.iter().position(|x| *x == 0).ok_or("authority")?;
    let authority = String::from_utf8(b[..end].to_vec()).map_err(|e| e.to_string())?;
    let mut p = end + 1;
    let mut take = |n: usize| -> Result<Vec<u8>, String> {
        let r = b.get(p..p + n).ok_or_else(|| format!("truncated at {p}"))?.to_vec();
        p += n;
        Ok(r)
    };
    let u32_of = |v: Vec<u8>| u32::from_le_bytes(v.try_into().unwrap());
    let size = u32_of(take(4)?);
    if take(8)? != [6, 2, 0, 0, 0, 0x24, 0, 0] {
        return Err("blob header".into());
    }
    if take(4)? != b"RSA1" {
        return Err("magic".into());
    }
    let bits = u32_of(take(4)?);
    if size != bits / 8 + 20 {
        return Err(format!("size field {size} for {bits} bits"));
    }
    let e = BigUint::from_bytes_le(&take(4)?);
    let n = BigUint::from_bytes_le(&take(bits as usize / 8)?);
    let mut sig = [BigUint::default(), BigUint::default(), BigUint::default()];
    let mut version = 0;
    if with_sigs {
        for (i, s) in sig.iter_mut().enumerate() {
            if u32_of(take(4)?) != bits / 8 {
                return Err(format!("length of signature {i}"));
            }
            *s = BigUint::from_bytes_le(&take(bits as usize / 8)?);
            if i == 0 {
                version = u32_of(take(4)?);
            }
        }
    }
    if p != b.len() {
        return Err(format!("{} bytes left over", b.len() - p));
    }
    Ok(SigFile { authority, bits, e, n, sig, version })
}

fn bytes_of<T>(f: impl FnOnce(&mut Vec<u8>) -> Result<T, hemtt_signing::Error>) -> Result<Vec<u8>, Fail> {
    let mut v = Vec::new();
    f(&mut v).map_err(|e| Fail::new("write", e.to_string()))?;
    Ok(v)
}

fn honest(d: &mut D, c: &mut Case) -> R {
    let m = signable(d);
    let k = if c.thorough { d.weighted(&[10, 6, 6, 1]) } else { d.weighted(&[20, 10, 12, 1]) };
    let auth = authority(d);
    let v = version(d);
    c.input(&format!("key {k} authority {auth:?} {v} {}", show(&m)));
    c.nontrivial(m.entries.iter().any(|e| !e.data.is_empty()));
    c.note(format!("{} bits {v}", KEYS[k].0));
    let private = key(k, &auth)?;
    let public = private.to_public_key();
    let mut pbo = open(&m)?;
    let sig = private.sign(&mut pbo, v).map_err(|e| Fail::new("sign", e.to_string()))?;
    // the files written
    let kb = bytes_of(|o| public.write(o))?;
    let sb = bytes_of(|o| sig.write(o))?;
    let kf = parse_file(&kb, false).map_err(|e| Fail::new("bikey-format", e))?;
    let sf = parse_file(&sb, true).map_err(|e| Fail::new("bisign-format", e))?;
    ensure!(kf.authority == auth && sf.authority == auth, "authority", "authority {:?} / {:?}, expected {auth:?}", kf.authority, sf.authority);
    ensure!(kf.bits == KEYS[k].0 && sf.bits == kf.bits, "bits", "lengths {} {}", kf.bits, sf.bits);
    ensure!(kf.e == sf.e && kf.n == sf.n, "key-parts", "key and signature disagree on the key");
    ensure!(sf.version == u32::from(v), "sig-version", "version {} for {v}", sf.version);
    // the signature is the one the game computes
    for (i, h) in signed_hashes(&m, v).iter().enumerate() {
        ensure!(
            sf.sig[i].modpow(&kf.e, &kf.n) == padded(h, kf.bits as usize / 8),
            format!("signature-{}", i + 1),
            "signature {} does not cover the expected hash of {}",
            i + 1,
            show(&m)
        );
    }
    // and it verifies, directly and after both went through their files
    public.verify(&mut open(&m)?, &sig).map_err(|e| Fail::new("verify", e.to_string()))?;
    let public2 = BIPublicKey::read(&mut &kb[..]).map_err(|e| Fail::new("bikey-read", e.to_string()))?;
    let sig2 = BISign::read(&mut &sb[..]).map_err(|e| Fail::new("bisign-read", e.to_string()))?;
    public2.verify(&mut open(&m)?, &sig2).map_err(|e| Fail::new("verify-files", e.to_string()))?;
    ensure!(bytes_of(|o| public2.write(o))? == kb, "bikey-roundtrip", "rewriting a read key changes it");
    ensure!(bytes_of(|o| sig2.write(o))? == sb, "bisign-roundtrip", "rewriting a read signature changes it");
    ensure!(public2.authority() == auth && public2.length() == kf.bits && public2.modulus() == &kf.n && public2.exponent() == &kf.e, "bikey-fields", "fields of the read key");
    ensure!(sig2.authority() == auth && sig2.length() == kf.bits && sig2.modulus() == &kf.n && sig2.exponent() == &kf.e && sig2.version() == v, "bisign-fields", "fields of the read signature");
    let pk = bytes_of(|o| private.write_danger(o))?;
    ensure!(pk == renamed(KEYS[k].1, &auth), "private-roundtrip", "rewriting a read private key changes it");
    Ok(())
}

fn keygen(d: &mut D, c: &mut Case) -> R {
    let bits = *d.pick(&[512u32, 1024]);
    let auth = authority(d);
    c.input(&format!("{bits} {auth:?}"));
    c.nontrivial(true);
    let k = BIPrivateKey::generate(bits, &auth).map_err(|e| Fail::new("generate", e.to_string()))?;
    let pk = bytes_of(|o| k.write_danger(o))?;
    let k2 = BIPrivateKey::read(&mut &pk[..]).map_err(|e| Fail::new("private-key-read", e.to_string()))?;
    ensure!(bytes_of(|o| k2.write_danger(o))? == pk, "private-roundtrip", "rewriting a read private key changes it");
    let pub1 = bytes_of(|o| k.to_public_key().write(o))?;
    ensure!(bytes_of(|o| k2.to_public_key().write(o))? == pub1, "public-of-read-key", "the public half changes after a round trip");
    let f = parse_file(&pub1, false).map_err(|e| Fail::new("bikey-format", e))?;
    ensure!(f.authority == auth && f.bits == bits && f.n.bits() == bits as usize, "keygen-fields", "fields of a generated key");
    let m = signable(d);
    let v = version(d);
    let sig = k2.sign(&mut open(&m)?, v).map_err(|e| Fail::new("sign", e.to_string()))?;
    k.to_public_key().verify(&mut open(&m)?, &sig).map_err(|e| Fail::new("verify", e.to_string()))?;
    // every generated key is new
    let other = BIPrivateKey::generate(512, &auth).map_err(|e| Fail::new("generate", e.to_string()))?;
    ensure!(other.to_public_key().modulus() != k.to_public_key().modulus(), "keygen-repeats", "two generated keys are equal");
    ensure!(other.to_public_key().verify(&mut open(&m)?, &sig).is_err(), "forged-accepted", "a key with the same authority accepts a foreign signature");
    Ok(())
}

/// Everything a signature covers.
fn covered(m: &Model) -> Model {
    canonical(m)
}

fn tamper_model(d: &mut D, m: &mut Model) -> &'static str {
    for _ in 0..20 {
        let i = d.usize(0, m.entries.len() - 1);
        match d.below(13) {
            0 if !m.entries[i].data.is_empty() => {
                let n = m.entries[i].data.len() - 1;
                let at = d.usize(0, n);
                let bit = d.below(8);
                m.entries[i].data[at] ^= 1 << bit;
                return "content bit";
            }
            1 => {
                let b = d.u8();
                m.entries[i].data.push(b);
                return "content grown";
            }
            2 if !m.entries[i].data.is_empty() => {
                m.entries[i].data.pop();
                return "content cut";
            }
            3 => {
                m.entries[i].name.push('x');
                return "renamed";
            }
            4 if m.entries.len() > 1 => {
                m.entries.remove(i);
                return "file removed";
            }
            5 => {
                let b = d.bytes(20);
                m.entries.push(Entry::new("zzz\\added.sqf", &b));
                return "file added";
            }
            6 if !m.props.is_empty() => {
                let j = d.usize(0, m.props.len() - 1);
                m.props[j].1.push('q');
                return "property value";
            }
            7 if m.vers => {
                m.props.push(("added".into(), "1".into()));
                return "property added";
            }
            8 => {
                m.entries[i].timestamp ^= 1;
                return "timestamp";
            }
            9 if m.entries.len() > 1 => {
                // move a byte from one file to the next: the data as a whole stays the same
                if i + 1 < m.entries.len() && !m.entries[i].data.is_empty() {
                    let b = m.entries[i].data.pop().unwrap();
                    m.entries[i + 1].data.insert(0, b);
                    return "boundary moved";
                }
            }
            10 if !m.props.is_empty() => {
                // the other one is found by its key
                let j = d.usize(0, m.props.len() - 1);
                let k = m.props[j].0.clone();
                let at = d.usize(0, m.props.len());
                m.props.insert(at, (k, "another".into()));
                return "property twice";
            }
            11 if !m.props.is_empty() => {
                let j = d.usize(0, m.props.len() - 1);
                m.props[j].1.push(vpc::pbo::legacy(0xe9));
                return "property not UTF-8";
            }
            12 => {
                m.entries[i].name.push(vpc::pbo::legacy(0xe9));
                return "name not UTF-8";
            }
            _ => {}
        }
    }
    m.entries[0].data.push(1);
    "content grown"
}

fn tampered(d: &mut D, c: &mut Case) -> R {
    let m = signable(d);
    let k = d.weighted(&[2, 1, 6]);
    let v = version(d);
    let private = key(k, "auth")?;
    let public = private.to_public_key();
    let sig = private.sign(&mut open(&m)?, v).map_err(|e| Fail::new("sign", e.to_string()))?;
    let good = encode(&m);
    let mut bytes = good.clone();
    let mut sb = bytes_of(|o| sig.write(o))?;
    let mut kb = bytes_of(|o| public.write(o))?;
    let (gsb, gkb) = (sb.clone(), kb.clone());
    let what = match d.weighted(&[5, 3, 3, 2, 1]) {
        0 => {
            let mut t = m.clone();
            let w = tamper_model(d, &mut t);
            bytes = encode(&covered(&t));
            w
        }
        1 => {
            gen::mutate(d, &mut bytes);
            "pbo bytes"
        }
        2 => {
            let at = d.usize(0, sb.len() - 1);
            sb[at] ^= 1 << d.below(8);
            "signature bit"
        }
        3 => {
            // exchange two of the three signatures
            let n = KEYS[k].0 as usize / 8;
            let s = parse_file(&sb, true).map_err(|e| Fail::new("bisign-format", e))?;
            let mut list: Vec<Vec<u8>> = s.sig.iter().map(|x| { let mut v = x.to_bytes_le(); v.resize(n, 0); v }).collect();
            let (a, b) = *d.pick(&[(0, 1), (0, 2), (1, 2)]);
            list.swap(a, b);
            let start = 5 + 4 + 8 + 4 + 4 + 4 + n;
            let mut o = sb[..start].to_vec();
            for (i, l) in list.iter().enumerate() {
                o.extend((n as u32).to_le_bytes());
                o.extend(l);
                if i == 0 {
                    o.extend(s.version.to_le_bytes());
                }
            }
            sb = o;
            "signatures swapped"
        }
        _ => {
            let at = d.usize(5 + 20, kb.len() - 1);
            kb[at] ^= 1 << d.below(8);
            "key bit"
        }
    };
    c.input(&format!("key {k} {v} {what}: {}", show(&m)));
    c.input_bytes(&bytes);
    c.note(what);
    // what the damage left unchanged in meaning may verify
    // the byte before the stored checksum separates only
    let mut framed = bytes.clone();
    if let Some(x) = framed.len().checked_sub(21) {
        framed[x] = 0;
    }
    let same_pbo = decode(&framed).is_ok_and(|x| covered(&x.model) == covered(&m) && x.model == covered(&x.model));
    let same_sig = parse_file(&sb, true).ok().zip(parse_file(&gsb, true).ok()).is_some_and(|(a, b)| {
        // versions that cover the same sign the same
        let same_version = a.version == b.version || ([2, 3].contains(&a.version) && signed_hashes(&m, BISignVersion::V2) == signed_hashes(&m, BISignVersion::V3));
        a.sig == b.sig && same_version && a.authority == b.authority
    });
    let harmless_sig_header = !same_sig && {
        // ignored framing bytes, or the copy of the key inside the signature
        let mut t = sb.clone();
        let n = KEYS[k].0 as usize / 8;
        let end = 5;
        for i in (end..end + 4 + 8 + 4).chain(end + 20..end + 24 + n).chain([end + 24 + n, end + 25 + n, end + 26 + n, end + 27 + n]) {
            if i < t.len() {
                t[i] = gsb[i];
            }
        }
        for blk in [end + 24 + n + 4 + n + 4, end + 24 + n + 4 + n + 4 + 4 + n] {
            for i in blk..blk + 4 {
                if i < t.len() {
                    t[i] = gsb[i];
                }
            }
        }
        // the length is counted in whole bytes
        if let (Some(x), Some(y)) = (t.get_mut(end + 16), gsb.get(end + 16)) {
            *x = (*x & !7) | (*y & 7);
        }
        t == gsb
    };
    let same_key = kb == gkb;
    let harmless = same_pbo && (same_sig || harmless_sig_header) && same_key;
    c.nontrivial(!harmless);
    c.note_if(harmless, "meaning unchanged");
    let verdict = (|| -> Result<(), String> {
        let mut p = ReadablePbo::from(Cursor::new(bytes.clone())).map_err(|e| e.to_string())?;
        let s = BISign::read(&mut &sb[..]).map_err(|e| e.to_string())?;
        let k = BIPublicKey::read(&mut &kb[..]).map_err(|e| e.to_string())?;
        k.verify(&mut p, &s).map_err(|e| e.to_string())
    })();
    if !harmless {
        ensure!(verdict.is_err(), "tampered-accepted", "{what}: the damaged PBO, signature or key still verifies");
    }
    Ok(())
}

/// Only somebody with the private key can make a signature a public key accepts.
fn forged(d: &mut D, c: &mut Case) -> R {
    let m = signable(d);
    let v = version(d);
    let (a, b) = *d.pick(&[(0usize, 1usize), (1, 0), (0, 2), (2, 0), (1, 2)]);
    let auth = authority(d);
    let other = if d.bool() { auth.clone() } else { format!("{auth}2") };
    c.input(&format!("keys {a} {b} {auth:?} {other:?} {}", show(&m)));
    c.nontrivial(true);
    let real = key(a, &auth)?.to_public_key();
    let attacker = key(b, &other)?;
    let sig = attacker.sign(&mut open(&m)?, v).map_err(|e| Fail::new("sign", e.to_string()))?;
    ensure!(real.verify(&mut open(&m)?, &sig).is_err(), "forged-accepted", "a signature made with another key (authority {other:?}) verifies against {auth:?}");
    // the same key under another authority
    let near = {
        let mut v: Vec<char> = auth.chars().collect();
        let i = d.usize(0, v.len() - 1);
        match d.below(7) {
            0 => v.push('x'),
            1 => {
                v.pop();
            }
            2 => v.push(' '),
            3 => v.insert(0, ' '),
            4 => v[i] = *d.pick(&['a', 'A', '_', '-', '1']),
            _ => {
                let j = v.iter().position(char::is_ascii_alphabetic).unwrap_or(0);
                v[j] = if v[j].is_ascii_uppercase() { v[j].to_ascii_lowercase() } else if v[j].is_ascii_lowercase() { v[j].to_ascii_uppercase() } else { 'q' };
            }
        }
        v.into_iter().collect::<String>()
    };
    let near = if near == auth { format!("{auth}x") } else { near };
    c.input(&near);
    let renamed = key(a, &near)?;
    let sig = renamed.sign(&mut open(&m)?, v).map_err(|e| Fail::new("sign", e.to_string()))?;
    ensure!(real.verify(&mut open(&m)?, &sig).is_err(), "authority-ignored", "a signature of another authority verifies");
    // exponent-one forgery: the "signature" is the padded hash itself
    let n = KEYS[a].0 as usize / 8;
    let honest = key(a, &auth)?.sign(&mut open(&m)?, v).map_err(|e| Fail::new("sign", e.to_string()))?;
    let good = bytes_of(|o| honest.write(o))?;
    let end = auth.len() + 1;
    let mut f = good[..end + 20].to_vec();
    f.extend(1u32.to_le_bytes());
    f.extend(&good[end + 24..end + 24 + n]);
    for (i, h) in signed_hashes(&m, v).iter().enumerate() {
        f.extend((n as u32).to_le_bytes());
        let mut p = padded(h, n).to_bytes_le();
        p.resize(n, 0);
        f.extend(p);
        if i == 0 {
            f.extend(u32::from(v).to_le_bytes());
        }
    }
    if let Ok(s) = BISign::read(&mut &f[..]) {
        ensure!(real.verify(&mut open(&m)?, &s).is_err(), "forged-accepted", "a signature with exponent one verifies");
    }
    Ok(())
}

/// Reordering files away from the sorted order invalidates the signature.
fn unsorted(d: &mut D, c: &mut Case) -> R {
    let m = signable(d);
    let v = version(d);
    let k = key(2, "auth")?;
    let sig = k.sign(&mut open(&m)?, v).map_err(|e| Fail::new("sign", e.to_string()))?;
    let mut t = m.clone();
    d.shuffle(&mut t.entries);
    c.input(&show(&t));
    let changed = t.entries != m.entries;
    c.nontrivial(changed);
    let r = k.to_public_key().verify(&mut open(&t)?, &sig);
    ensure!(r.is_err() == changed, "unsorted", "files in another order: {:?}", r.map_err(|e| e.to_string()));
    Ok(())
}

fn damaged(d: &mut D, c: &mut Case) -> R {
    static GOOD: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    let good = GOOD.get_or_init(|| {
        let m = Model { vers: true, props: vec![], entries: vec![Entry::new("a.sqf", b"hello")] };
        let k = key(2, "auth").ok().unwrap();
        let mut s = Vec::new();
        k.sign(&mut open(&m).ok().unwrap(), BISignVersion::V3).unwrap().write(&mut s).unwrap();
        let mut p = Vec::new();
        k.to_public_key().write(&mut p).unwrap();
        vec![renamed(KEYS[2].1, "auth"), p, s]
    });
    let which = d.usize(0, 2);
    let mut b = good[which].clone();
    let mut wrong = None;
    match d.below(5) {
        4 => {
            // one field that contradicts the rest
            let bits = u32::from_le_bytes(b[21..25].try_into().unwrap()) as usize;
            let (at, what) = match if which == 2 { d.below(3) } else { d.below(2) } {
                0 => (5, "size"),
                1 => (21, "bits"),
                _ => (29 + bits / 8 * 2 + 4, "version"),
            };
            let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
            let new = match d.below(4) {
                0 => old.wrapping_add(1 << d.below(32)),
                1 => old ^ 1 << d.below(32),
                2 => old.wrapping_add(d.below(300) as u32),
                _ => d.below(1 << 32) as u32,
            };
            let same = match what {
                "size" => new == old,
                // lengths are whole bytes
                "bits" => new / if which == 0 { 16 } else { 8 } == old / if which == 0 { 16 } else { 8 },
                _ => new == 2 || new == 3,
            };
            b[at..at + 4].copy_from_slice(&new.to_le_bytes());
            if !same {
                wrong = Some(format!("{what} {new} for {old}"));
            }
        }
        0 => {
            let n = d.usize(0, b.len());
            b.truncate(n);
        }
        1 => b = d.bytes(400),
        2 => {
            // a consistent header with an arbitrary length
            let bits = *d.pick(&[0u32, 8, 16, 64, 160, 280, 288, 296, 304, 320, 1024, 0xffff_fff0, 0x7fff_fff0]);
            b = b"auth\0".to_vec();
            let size = if which == 0 { (bits / 16).wrapping_mul(9).wrapping_add(20) } else { bits / 8 + 20 };
            b.extend(size.to_le_bytes());
            b.extend([6, 2, 0, 0, 0, 0x24, 0, 0]);
            b.extend(b"RSA1");
            b.extend(bits.to_le_bytes());
            let n = d.usize(0, 300);
            let v = d.u8();
            b.extend(std::iter::repeat(v).take(n));
        }
        _ => gen::mutate(d, &mut b),
    }
    c.input(["private", "public", "signature"][which]);
    c.input_bytes(&b);
    c.nontrivial(b != good[which]);
    let m = Model { vers: true, props: vec![], entries: vec![Entry::new("a.sqf", b"hello")] };
    let accepted = match which {
        0 => match BIPrivateKey::read(&mut &b[..]) {
            Ok(k) => {
                let p = k.to_public_key();
                let _ = k.sign(&mut open(&m)?, BISignVersion::V2);
                ensure!(p.length() as usize / 8 <= b.len(), "private-truncated-accepted", "a {}-bit key from {} bytes", p.length(), b.len());
                true
            }
            Err(_) => false,
        },
        1 => match BIPublicKey::read(&mut &b[..]) {
            Ok(k) => {
                let s = BISign::read(&mut &good[2][..]).map_err(|e| Fail::new("bisign-read", e.to_string()))?;
                let _ = k.verify(&mut open(&m)?, &s);
                let _ = k.modulus_display(4);
                let w = bytes_of(|o| k.write(o))?;
                let more = b.iter().take_while(|x| **x != 0).filter(|x| **x >= 0x80).count();
                ensure!(w.len() <= b.len() + more && w[..5.min(w.len())] == b[..5.min(w.len())] || !b.starts_with(b"auth\0"), "bikey-reread", "rewritten key has {} bytes, read from {}", w.len(), b.len());
                true
            }
            Err(_) => false,
        },
        _ => match BISign::read(&mut &b[..]) {
            Ok(s) => {
                let k = key(2, "auth")?.to_public_key();
                let _ = k.verify(&mut open(&m)?, &s);
                let _ = s.modulus_display(4);
                let w = bytes_of(|o| s.write(o))?;
                // a name that is not UTF-8 is longer in it
                let more = b.iter().take_while(|x| **x != 0).filter(|x| **x >= 0x80).count();
                ensure!(w.len() <= b.len() + more, "bisign-reread", "rewritten signature has {} bytes, read from {}", w.len(), b.len());
                true
            }
            Err(_) => false,
        },
    };
    c.note(if accepted { "accepted" } else { "rejected" });
    if let Some(w) = &wrong {
        c.note("a wrong field");
        ensure!(!accepted, "wrong-field-accepted", "a file with {w} is accepted");
    }
    ensure!(accepted || b != good[which], "good-rejected", "a well-formed file is rejected");
    if b.len() < good[which].len() && good[which].starts_with(&b) {
        ensure!(!accepted, "truncated-accepted", "a file cut to {} of {} bytes is accepted", b.len(), good[which].len());
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "S01",
            level: "exploration",
            rule: "a PBO with at least one non-empty file, or a freshly generated key pair",
            facets: vec![Facet::new("honest", 700, 20_000, honest), Facet::new("keygen", 24, 400, keygen)],
            probes: vec![],
            assumptions: &["RSA keys of 512, 1024 and 2048 bits"],
        },
        Property {
            id: "S02",
            level: "exploration",
            rule: "the alteration changes something a signature covers (a differing content, name, property, header field, order, key or signature value)",
            facets: vec![
                Facet::new("tampered", 3_000, 100_000, tampered),
                Facet::new("forged", 500, 20_000, forged),
                Facet::new("unsorted", 1_500, 50_000, unsorted),
            ],
            probes: vec![],
            assumptions: &["finding SHA-1 collisions or factoring RSA keys is outside the search"],
        },
        Property {
            id: "S03",
            level: "exploration",
            rule: "bytes that differ from the well-formed key or signature file",
            facets: vec![Facet::new("damaged", 20_000, 800_000, damaged).hang(60)],
            probes: vec![],
            assumptions: &[],
        },
    ]
}

/// `vp-lib --make-keys DIR` (used once to create the fixtures)
pub fn make_keys(dir: &str) {
    for (n, bits) in [("a1024", 1024), ("b1024", 1024), ("c512", 512), ("d2048", 2048)] {
        let k = BIPrivateKey::generate(bits, "fixture").expect("generate");
        let mut o = Vec::new();
        k.write_danger(&mut o).expect("write");
        std::fs::write(format!("{dir}/{n}.biprivatekey"), o).expect("file");
    }
}
