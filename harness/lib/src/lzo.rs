use hemtt_lzo::{compress, compress_to_slice, decompress_to_slice, worst_compress, LzoError};
use vpc::guard::Guard;
use vpc::lzo::{decode, Bad};
use vpc::{ensure, gen, Case, Facet, Fail, Property, D, R};

/// Text-like, structured and image-like data with matches at every kind of distance.
fn data(d: &mut D, thorough: bool) -> Vec<u8> {
    let max = if thorough { 400_000 } else { 140_000 };
    match d.weighted(&[5, 3, 2, 3, 2, 3]) {
        5 => {
            // repeats of exact lengths at a chosen kind of distance: chunks behind runs are found again
            let n = d.usize(1, 24);
            let chunks: Vec<(Vec<u8>, usize)> = (0..n)
                .map(|_| {
                    let len = match d.below(4) {
                        0 => d.usize(3, 12),
                        1 => d.usize(3, 75),
                        2 => d.usize(255, 300),
                        _ => d.usize(500, 560),
                    };
                    (d.bulk(len + 4), len)
                })
                .collect();
            let mut v = d.bulk(3);
            for (c, _) in &chunks {
                v.extend([0; 30]);
                v.extend(c);
            }
            let gap = *d.pick(&[0usize, 500, 1500, 2048, 8000, 15_000, 16_384, 20_000, 30_000, 40_000]);
            v.extend(std::iter::repeat(0u8).take(gap));
            for (c, len) in &chunks {
                v.extend([0; 24]);
                v.extend(&c[..*len]);
                v.push(c[*len] ^ 0x55);
                let lit = *d.pick(&[0usize, 0, 1, 2, 3, 4, 17, 18, 19]);
                let b = d.bulk(lit);
                v.extend(b);
            }
            v
        }
        0 => d.bytes(3000),
        1 => {
            // repeats at chosen distances, around the limits of the match encodings
            let mut v = d.bytes(300);
            if v.is_empty() {
                v.push(7);
            }
            let n = d.usize(1, 12);
            for _ in 0..n {
                let fill = *d.pick(&[0usize, 1, 3, 17, 300, 2040, 2050, 8000, 16_380, 16_390, 32_760, 49_000, 49_160]);
                let b = d.bulk(fill);
                v.extend(b);
                let len = *d.pick(&[1usize, 2, 3, 4, 5, 8, 9, 32, 33, 34, 64, 260, 520, 1000]);
                let dist = *d.pick(&[1usize, 2, 4, 16, 255, 1023, 1024, 2047, 2048, 2049, 16_383, 16_384, 16_385, 32_767, 49_150]);
                let dist = dist.min(v.len());
                let s = v.len() - dist;
                for i in 0..len {
                    let x = v[s + i];
                    v.push(x);
                }
                if v.len() > max {
                    break;
                }
            }
            v
        }
        2 => {
            let n = d.usize(0, max);
            d.bulk(n)
        }
        3 => {
            // runs around the extension-byte boundaries
            let mut v = Vec::new();
            let n = d.usize(1, 6);
            for _ in 0..n {
                let lit = *d.pick(&[0usize, 1, 2, 3, 4, 15, 16, 17, 18, 19, 237, 238, 239, 272, 273, 274, 527, 528]);
                let b = d.bulk(lit);
                v.extend(b);
                let run = *d.pick(&[0usize, 3, 9, 24, 33, 34, 35, 262, 288, 289, 290, 5000, 50_000]);
                let byte = d.u8();
                v.extend(std::iter::repeat(byte).take(run));
            }
            v
        }
        _ => {
            let words: Vec<Vec<u8>> = (0..12).map(|_| d.bulk(6)).collect();
            let n = d.usize(1, 4000);
            let mut x = d.raw() | 1;
            let mut v = Vec::new();
            for _ in 0..n {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                v.extend(&words[(x % 12) as usize]);
            }
            v
        }
    }
}

fn roundtrip(d: &mut D, c: &mut Case) -> R {
    let v = data(d, c.thorough);
    c.input(&format!("{} bytes: {}", v.len(), vpc::show_bytes(&v)));
    c.nontrivial(v.len() >= 4);
    let at_end = d.bool();
    let mut input = Guard::from(&v, at_end);
    let mut room = Guard::new(worst_compress(v.len()), d.chance(3, 4));
    let packed = match compress_to_slice(input.get(), room.get()) {
        Ok(p) => p.to_vec(),
        Err(e) => return Err(Fail::new("compress-error", format!("compressing {} bytes fails: {e}", v.len()))),
    };
    ensure!(room.intact(), "compress-overflow", "compress_to_slice wrote outside its buffer");
    ensure!(input.get() == &v[..], "input-modified", "compressing changes its input");
    ensure!(packed.len() <= worst_compress(v.len()), "worst-case", "{} bytes became {}", v.len(), packed.len());
    c.note_if(packed.len() < v.len(), "smaller");
    c.note_if(v.len() > 49_152, "more than one window");
    // independent decoder
    match decode(&packed, v.len()) {
        Ok(o) => ensure!(o == v, "wrong-data", "an independent decoder reads other data back"),
        Err(e) => return Err(Fail::new("bad-stream", format!("an independent decoder rejects the stream: {e:?}"))),
    }
    // own decoder, into a buffer of exactly the right size
    let mut pin = Guard::from(&packed, true);
    let mut out = Guard::new(v.len(), d.chance(3, 4));
    match decompress_to_slice(pin.get(), out.get()) {
        Ok(o) => ensure!(o == &v[..], "roundtrip", "decompressing gives other data back ({} bytes)", v.len()),
        Err(e) => return Err(Fail::new("roundtrip-error", format!("decompressing fails: {e}"))),
    }
    ensure!(out.intact(), "decompress-overflow", "decompress_to_slice wrote outside its buffer");
    // a larger buffer gives the same, a smaller one an error
    let extra = d.usize(1, 200);
    let mut big = vec![0u8; v.len() + extra];
    match decompress_to_slice(&packed, &mut big) {
        Ok(o) => ensure!(o == &v[..], "roundtrip-larger", "into a larger buffer: {} bytes instead of {}", o.len(), v.len()),
        Err(e) => return Err(Fail::new("roundtrip-error", format!("decompressing into a larger buffer fails: {e}"))),
    }
    if !v.is_empty() {
        let less = d.usize(0, v.len() - 1);
        let mut small = Guard::new(less, true);
        ensure!(decompress_to_slice(&packed, small.get()).is_err(), "short-output-accepted", "{} bytes fit into {less}", v.len());
    }
    if d.chance(1, 3) {
        let cut = d.usize(0, packed.len() - 1);
        let mut t = Guard::from(&packed[..cut], true);
        let mut o = Guard::new(v.len(), true);
        ensure!(decompress_to_slice(t.get(), o.get()).is_err(), "truncated-accepted", "a stream cut to {cut} of {} bytes is accepted", packed.len());
    }
    // the Vec interface
    let mut vec = Vec::with_capacity(worst_compress(v.len()));
    compress(&v, &mut vec).map_err(|e| Fail::new("compress-error", e.to_string()))?;
    ensure!(vec == packed, "vec-differs", "compress and compress_to_slice differ");
    Ok(())
}

fn small_output(d: &mut D, c: &mut Case) -> R {
    let v = data(d, false);
    let mut full = vec![0u8; worst_compress(v.len())];
    let packed = compress_to_slice(&v, &mut full).map_err(|e| Fail::new("compress-error", e.to_string()))?.to_vec();
    let room = match d.below(4) {
        0 => packed.len(),
        1 => packed.len().saturating_sub(1),
        2 => d.usize(0, packed.len()),
        _ => d.usize(0, worst_compress(v.len())),
    };
    c.input(&format!("{} bytes -> {} into {room}: {}", v.len(), packed.len(), vpc::show_bytes(&v)));
    c.nontrivial(room < worst_compress(v.len()));
    c.note(if room < packed.len() { "too small" } else { "large enough" });
    let mut g = Guard::new(room, true);
    let r = compress_to_slice(&v, g.get()).map(|x| x.to_vec());
    ensure!(g.intact(), "compress-overflow", "wrote before its buffer");
    match r {
        Ok(p) => ensure!(room >= packed.len() && p == packed, "short-output-accepted", "{} compressed bytes reported in {room}", p.len()),
        Err(e) => ensure!(room < packed.len() && e == LzoError::OutputOverrun, "large-output-rejected", "{room} bytes are enough for {}, but: {e}", packed.len()),
    }
    let mut o: Vec<u8> = Vec::with_capacity(room);
    let cap = o.capacity();
    match compress(&v, &mut o) {
        Ok(()) => ensure!(o == packed, "vec-differs", "{} bytes", o.len()),
        Err(_) => ensure!(cap < packed.len(), "large-output-rejected", "capacity {cap} is enough for {}", packed.len()),
    }
    ensure!(o.len() <= o.capacity(), "vec-overflow", "length {} of capacity {}", o.len(), o.capacity());
    Ok(())
}

/// Streams built from the instruction set rather than from a compressor.
fn stream(d: &mut D) -> Vec<u8> {
    let mut s = Vec::new();
    let n = d.usize(1, 10);
    if d.bool() {
        let f = d.range(18, 255) as u8;
        s.push(f);
        let l = (f - 17) as usize;
        let b = d.bulk(l);
        s.extend(b);
    }
    for _ in 0..n {
        match d.below(6) {
            0 => {
                let t = d.range(0, 15) as u8;
                s.push(t);
                if t == 0 {
                    let z = d.usize(0, 3);
                    s.extend(vec![0; z]);
                    let l = d.range(1, 255) as u8;
                    s.push(l);
                    let b = d.bulk(18 + z * 255 + l as usize - 3);
                    s.extend(b);
                } else {
                    let b = d.bulk(t as usize + 3);
                    s.extend(b);
                }
            }
            1 => {
                s.push(d.range(64, 255) as u8);
                s.push(if d.bool() { 0 } else { d.u8() });
            }
            2 => {
                let t = d.range(32, 63) as u8;
                s.push(t);
                if t == 32 {
                    let z = d.usize(0, 3);
                    s.extend(vec![0; z]);
                    s.push(d.range(1, 255) as u8);
                }
                s.push(d.u8());
                s.push(if d.bool() { 0 } else { d.u8() });
            }
            3 => {
                let t = d.range(16, 31) as u8;
                s.push(t);
                if t & 7 == 0 {
                    let z = d.usize(0, 3);
                    s.extend(vec![0; z]);
                    s.push(d.range(1, 255) as u8);
                }
                s.push(d.u8());
                s.push(d.u8());
            }
            4 => {
                let b = d.bytes(8);
                s.extend(b);
            }
            _ => {
                s.push(d.range(0, 15) as u8);
                s.push(if d.bool() { 0 } else { d.u8() });
            }
        }
    }
    if d.chance(4, 5) {
        s.extend([0x11, 0, 0]);
    }
    s
}

/// A stream that is valid by construction: every instruction refers to what is already there.
fn built(d: &mut D) -> (Vec<u8>, Vec<u8>) {
    fn long(s: &mut Vec<u8>, mut extra: usize) {
        // the rest of a length: zeros of 255 and a last byte that is not zero
        while extra > 255 {
            s.push(0);
            extra -= 255;
        }
        s.push(extra as u8);
    }
    fn literals(s: &mut Vec<u8>, out: &mut Vec<u8>, b: &[u8]) {
        s.extend(b);
        out.extend(b);
    }
    let (mut s, mut out) = (Vec::new(), Vec::new());
    // 0..=3: behind a match with that many literals, 4: behind a run of literals
    let mut state = 0;
    if d.bool() {
        let n = d.usize(1, 238);
        s.push(n as u8 + 17);
        let b = d.bulk(n);
        literals(&mut s, &mut out, &b);
        state = if n < 4 { n } else { 4 };
    }
    let n = d.usize(1, 24);
    for _ in 0..n {
        let far = |d: &mut D, out: &[u8], least: usize, most: usize| -> Option<usize> {
            let most = most.min(out.len());
            (most >= least).then(|| match d.below(3) {
                0 => least,
                1 => most,
                _ => d.usize(least, most),
            })
        };
        let run = |d: &mut D, s: &mut Vec<u8>, out: &mut Vec<u8>| {
            let n = *d.pick(&[4usize, 5, 17, 18, 19, 273, 274, 528, 529, 1500, 2400, 9000, 33_000]);
            let n = if d.bool() { d.usize(4, 300) } else { n };
            if n <= 18 {
                s.push(n as u8 - 3);
            } else {
                s.push(0);
                long(s, n - 18);
            }
            let b = d.bulk(n);
            literals(s, out, &b);
        };
        let tail = d.usize(0, 3);
        let len = match d.below(4) {
            0 => d.usize(3, 8),
            1 => d.usize(9, 40),
            2 => *d.pick(&[9usize, 10, 33, 34, 264, 265, 288, 289, 519, 520, 543, 544]),
            _ => d.usize(3, 1200),
        };
        let copy = |out: &mut Vec<u8>, dist: usize, len: usize| {
            for _ in 0..len {
                out.push(out[out.len() - dist]);
            }
        };
        match d.weighted(&[3, 3, 3, 3, 3]) {
            0 if state == 0 => {
                run(d, &mut s, &mut out);
                state = 4;
                continue;
            }
            1 if state != 0 => {
                let (least, most, base, len) = if state == 4 { (2049, 3072, 2049, 3) } else { (1, 1024, 1, 2) };
                let Some(dist) = far(d, &out, least, most) else { continue };
                let x = dist - base;
                s.push(((x & 3) << 2 | tail) as u8);
                s.push((x >> 2) as u8);
                copy(&mut out, dist, len);
            }
            2 => {
                let len = 3 + (len - 3) % 6;
                let Some(dist) = far(d, &out, 1, 2048) else { continue };
                let x = dist - 1;
                s.push(((len - 1) << 5 | (x & 7) << 2 | tail) as u8);
                s.push((x >> 3) as u8);
                copy(&mut out, dist, len);
            }
            3 => {
                let Some(dist) = far(d, &out, 1, 16_384) else { continue };
                if len <= 33 {
                    s.push(32 | (len - 2) as u8);
                } else {
                    s.push(32);
                    long(&mut s, len - 33);
                }
                s.extend((((dist - 1) << 2 | tail) as u16).to_le_bytes());
                copy(&mut out, dist, len);
            }
            4 => {
                let Some(dist) = far(d, &out, 16_385, 49_151) else { continue };
                let x = dist - 16_384;
                let top = if x >= 16_384 { 8 } else { 0 };
                if len <= 9 {
                    s.push(16 | top | (len - 2) as u8);
                } else {
                    s.push(16 | top);
                    long(&mut s, len - 9);
                }
                s.extend((((x & 0x3fff) << 2 | tail) as u16).to_le_bytes());
                copy(&mut out, dist, len);
            }
            _ => continue,
        }
        let b = d.bulk(tail);
        literals(&mut s, &mut out, &b);
        state = tail;
    }
    s.extend([0x11, 0, 0]);
    (s, out)
}

fn valid(d: &mut D, c: &mut Case) -> R {
    let (s, want) = built(d);
    c.input(&format!("{} bytes of output", want.len()));
    c.input_bytes(&s);
    c.nontrivial(want.len() >= 4);
    c.note_if(want.len() > 2049, "more than 2 KB");
    c.note_if(want.len() > 16_384, "more than 16 KB");
    match decode(&s, want.len()) {
        Ok(o) => ensure!(o == want, "model", "the two models differ"),
        Err(e) => vpc::fail!("model", "the model rejects its own stream: {e:?}"),
    }
    let extra = *d.pick(&[0usize, 0, 0, 1, 7, 100]);
    let mut i = Guard::from(&s, d.chance(3, 4));
    let mut o = Guard::new(want.len() + extra, d.chance(3, 4));
    match decompress_to_slice(i.get(), o.get()) {
        Ok(x) => {
            if x != &want[..] {
                let at = x.iter().zip(&want).position(|(a, b)| a != b);
                vpc::fail!("wrong-data", "{} bytes instead of {}, first difference at {at:?}", x.len(), want.len());
            }
        }
        Err(e) => vpc::fail!("valid-rejected", "{e} for a stream of {} bytes", want.len()),
    }
    ensure!(o.intact(), "decompress-overflow", "decompress_to_slice wrote outside its buffer");
    Ok(())
}

fn hostile(d: &mut D, c: &mut Case) -> R {
    let s = match d.weighted(&[4, 3, 2]) {
        0 => stream(d),
        1 => {
            let v = d.bytes(1500);
            let mut o = vec![0u8; worst_compress(v.len())];
            let mut p = compress_to_slice(&v, &mut o).map_err(|e| Fail::new("compress-error", e.to_string()))?.to_vec();
            gen::mutate(d, &mut p);
            p
        }
        _ => d.bytes(200),
    };
    let room = *d.pick(&[0usize, 1, 2, 7, 8, 9, 16, 64, 250, 600, 3000, 20_000]);
    c.input(&format!("into {room}"));
    c.input_bytes(&s);
    c.nontrivial(!s.is_empty());
    let mut i = Guard::from(&s, d.chance(3, 4));
    let mut o = Guard::new(room, d.chance(3, 4));
    let got = decompress_to_slice(i.get(), o.get()).map(|x| x.to_vec());
    ensure!(o.intact(), "decompress-overflow", "decompress_to_slice wrote outside its buffer");
    let want = decode(&s, room);
    match (&got, &want) {
        (Ok(a), Ok(b)) => ensure!(a == b, "differs", "{} bytes, an independent decoder reads {}", a.len(), b.len()),
        (Ok(a), Err(e)) => return Err(Fail::new("malformed-accepted", format!("{} bytes from a stream an independent decoder rejects ({e:?})", a.len()))),
        (Err(e), Ok(b)) => return Err(Fail::new("valid-rejected", format!("{e} for a stream of {} bytes", b.len()))),
        (Err(_), Err(_)) => {}
    }
    c.note(match want {
        Ok(_) => "valid",
        Err(Bad::Input) => "input overrun",
        Err(Bad::Output) => "output overrun",
        Err(Bad::Lookbehind) => "lookbehind overrun",
        Err(Bad::NotConsumed) => "trailing bytes",
        Err(Bad::Eof) => "bad end",
    });
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "L01",
            level: "exploration",
            rule: "at least four bytes of input, or an output buffer smaller than the worst case",
            facets: vec![Facet::new("roundtrip", 12_000, 300_000, roundtrip), Facet::new("small_output", 3_000, 60_000, small_output)],
            probes: vec![],
            assumptions: &["inputs up to 140 KB (quick) or 400 KB (thorough)"],
        },
        Property {
            id: "L02",
            level: "exploration",
            rule: "a non-empty stream, compared byte for byte with an independent decoder",
            facets: vec![Facet::new("hostile", 60_000, 3_000_000, hostile).hang(30), Facet::new("valid", 30_000, 1_500_000, valid).hang(30)],
            probes: vec![],
            assumptions: &[],
        },
    ]
}
