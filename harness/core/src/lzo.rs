//! An independent LZO1X decoder written from the format description, with every access checked.

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Bad {
    Input,
    Output,
    Lookbehind,
    NotConsumed,
    Eof,
}

/// Decode `src`, producing at most `max` bytes.
pub fn decode(src: &[u8], max: usize) -> Result<Vec<u8>, Bad> {
    let (out, used) = decode_prefix(src, max)?;
    if used == src.len() { Ok(out) } else { Err(Bad::NotConsumed) }
}

/// Decode the stream at the start of `src`; also returns its length.
pub fn decode_prefix(src: &[u8], max: usize) -> Result<(Vec<u8>, usize), Bad> {
    let mut out: Vec<u8> = Vec::new();
    let mut ip = 0usize;
    let mut state = 0usize;
    let get = |ip: &mut usize| -> Result<usize, Bad> {
        let b = *src.get(*ip).ok_or(Bad::Input)?;
        *ip += 1;
        Ok(b as usize)
    };
    fn lits(src: &[u8], ip: &mut usize, n: usize, out: &mut Vec<u8>, max: usize) -> Result<(), Bad> {
        if out.len() + n > max {
            return Err(Bad::Output);
        }
        if *ip + n > src.len() {
            return Err(Bad::Input);
        }
        out.extend_from_slice(&src[*ip..*ip + n]);
        *ip += n;
        Ok(())
    }
    fn run(src: &[u8], ip: &mut usize, base: usize) -> Result<usize, Bad> {
        let mut n = base;
        loop {
            let b = *src.get(*ip).ok_or(Bad::Input)?;
            *ip += 1;
            if b == 0 {
                n += 255;
            } else {
                return Ok(n + b as usize);
            }
        }
    }
    if src.is_empty() {
        return Err(Bad::Input);
    }
    if src[0] > 17 {
        ip = 1;
        let n = src[0] as usize - 17;
        lits(src, &mut ip, n, &mut out, max)?;
        state = if n < 4 { n } else { 4 };
    }
    loop {
        let t = get(&mut ip)?;
        let (len, dist, trail);
        if t < 16 {
            if state == 0 {
                let n = if t == 0 { run(src, &mut ip, 15)? } else { t } + 3;
                lits(src, &mut ip, n, &mut out, max)?;
                state = 4;
                continue;
            }
            let h = get(&mut ip)?;
            trail = t & 3;
            if state == 4 {
                len = 3;
                dist = 0x801 + (t >> 2) + (h << 2);
            } else {
                len = 2;
                dist = 1 + (t >> 2) + (h << 2);
            }
        } else if t < 32 {
            let l = if t & 7 == 0 { run(src, &mut ip, 7)? } else { t & 7 };
            let lo = get(&mut ip)?;
            let hi = get(&mut ip)?;
            let d = (lo | (hi << 8)) >> 2;
            let dist0 = ((t & 8) << 11) + d;
            if dist0 == 0 {
                // end of stream
                if l != 1 {
                    return Err(Bad::Eof);
                }
                return Ok((out, ip));
            }
            len = l + 2;
            dist = dist0 + 0x4000;
            trail = lo & 3;
        } else if t < 64 {
            let l = if t & 31 == 0 { run(src, &mut ip, 31)? } else { t & 31 };
            let lo = get(&mut ip)?;
            let hi = get(&mut ip)?;
            len = l + 2;
            dist = 1 + ((lo | (hi << 8)) >> 2);
            trail = lo & 3;
        } else {
            let h = get(&mut ip)?;
            len = (t >> 5) + 1;
            dist = 1 + ((t >> 2) & 7) + (h << 3);
            trail = t & 3;
        }
        if dist > out.len() {
            return Err(Bad::Lookbehind);
        }
        if out.len() + len > max {
            return Err(Bad::Output);
        }
        for _ in 0..len {
            let b = out[out.len() - dist];
            out.push(b);
        }
        lits(src, &mut ip, trail, &mut out, max)?;
        state = trail;
    }
}
