//! Packed numbers and text, names without regard to case, arithmetic in settings.
use hemtt_common::config::PDriveOption;
use hemtt_common::io::{compressed_int_len, ReadExt, WriteExt};
use hemtt_common::strip::StripInsensitive;
use vpc::gen::{Choppy, Failing};
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

fn packed(d: &mut D, c: &mut Case) -> R {
    #[derive(Debug, Clone)]
    enum Item {
        Number(u32),
        Text(String),
    }
    let items: Vec<Item> = d.vec(8, |d| {
        if d.bool() {
            let bits = d.below(33) as u32;
            let n = d.raw() as u32;
            Item::Number(match d.below(3) {
                0 => n.checked_shr(32 - bits).unwrap_or(0),
                1 => 1u32.checked_shl(bits).unwrap_or(0).wrapping_sub(d.below(2) as u32),
                _ => n,
            })
        } else {
            Item::Text(d.string_of(&['a', 'Z', '0', ' ', '\\', 'é', '\u{1F600}', '\x01', '\x7f'], 0, 9))
        }
    });
    c.input(&format!("{items:?}"));
    c.nontrivial(items.len() > 1);
    let mut want: Vec<u8> = Vec::new();
    for i in &items {
        match i {
            Item::Number(n) => {
                let mut n = *n;
                loop {
                    let low = (n & 0x7f) as u8;
                    n >>= 7;
                    want.push(if n > 0 { low | 0x80 } else { low });
                    if n == 0 {
                        break;
                    }
                }
            }
            Item::Text(t) => {
                want.extend(t.as_bytes());
                want.push(0);
            }
        }
    }
    let put = |w: &mut dyn std::io::Write| -> std::io::Result<()> {
        let mut w = w;
        for i in &items {
            match i {
                Item::Number(n) => {
                    w.write_compressed_int(*n)?;
                }
                Item::Text(t) => w.write_cstring(t)?,
            }
        }
        Ok(())
    };
    let mut got = Vec::new();
    put(&mut got).map_err(|e| Fail::new("write", e.to_string()))?;
    ensure!(got == want, "written", "{got:02x?} instead of {want:02x?}");
    let chunk = d.usize(1, 4);
    let mut r = Choppy { inner: std::io::Cursor::new(want.clone()), chunk };
    for i in &items {
        match i {
            Item::Number(n) => {
                let x = r.read_compressed_int().map_err(|e| Fail::new("read", e.to_string()))?;
                ensure!(x == *n, "number", "{x} instead of {n}");
                let mut one = Vec::new();
                let len = one.write_compressed_int(*n).map_err(|e| Fail::new("write", e.to_string()))?;
                ensure!(len == one.len() && compressed_int_len(*n) == len, "length", "{n} takes {} bytes, not {len} or {}", one.len(), compressed_int_len(*n));
            }
            Item::Text(t) => {
                let x = r.read_cstring().map_err(|e| Fail::new("read", e.to_string()))?;
                ensure!(x == *t, "text", "{x:?} instead of {t:?}");
            }
        }
    }
    if !want.is_empty() {
        let left = d.usize(0, want.len() - 1);
        let mut w = Failing::new(left, chunk);
        ensure!(put(&mut w).is_err(), "lost", "{left} of {} bytes could be written", want.len());
    }
    Ok(())
}
/// Bytes that mean nothing: an error or a value, and never more read than is there.
fn damaged(d: &mut D, c: &mut Case) -> R {
    let n = d.usize(0, 12);
    let bytes: Vec<u8> = (0..n).map(|_| if d.bool() { 0x80 | d.u8() } else { d.u8() }).collect();
    c.input_bytes(&bytes);
    c.nontrivial(n > 4);
    let mut r = std::io::Cursor::new(&bytes);
    if let Ok(x) = r.read_compressed_int() {
        let used = r.position() as usize;
        let v = bytes[..used].iter().enumerate().fold(0u128, |a, (i, b)| a | (u128::from(b & 0x7f) << (7 * i)));
        // what fits is exact
        if v <= u128::from(u32::MAX) && bytes[..used].last().is_some_and(|b| *b < 0x80) {
            ensure!(u128::from(x) == v, "number", "{x} instead of {v} in {bytes:02x?}");
            c.note("a number");
        }
    }
    // a string ends at the first zero, what is not UTF-8 is Latin-1
    let text: Vec<u8> = bytes.iter().copied().take_while(|b| *b != 0).collect();
    let want = String::from_utf8(text.clone()).unwrap_or_else(|_| text.iter().map(|b| *b as char).collect());
    let got = std::io::Cursor::new(&bytes).read_cstring().map_err(|e| Fail::new("read", e.to_string()))?;
    ensure!(got == want, "text", "{got:?} instead of {want:?}");
    Ok(())
}

fn strip(d: &mut D, c: &mut Case) -> R {
    let alphabet = ['a', 'b', 'A', 'B', 'é', 'É', '\\', '/', 'ß', '\u{1F600}'];
    let (s, p) = if d.bool() {
        (d.string_of(&alphabet, 0, 8), d.string_of(&alphabet, 0, 4))
    } else {
        let p = d.string_of(&alphabet, 0, 5);
        let s: String = p.chars().map(|c| if d.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        (s + &d.string_of(&alphabet, 0, 5), p)
    };
    c.input(&format!("{s:?} {p:?}"));
    c.nontrivial(!p.is_empty());
    // character by character
    let mut rest = s.chars();
    let ok = p.chars().all(|x| rest.next().is_some_and(|y| x.eq_ignore_ascii_case(&y)));
    let want = ok.then(|| rest.as_str());
    c.note(if ok { "matches" } else { "does not match" });
    let got = s.strip_prefix_insensitive(&p);
    ensure!(got == want, "strip", "{got:?} instead of {want:?}");
    ensure!(s.clone().strip_prefix_insensitive(&p) == want, "strip", "of a String");
    Ok(())
}

#[derive(Debug, Clone)]
enum Sum {
    Number(String),
    Op(Box<Sum>, char, Box<Sum>),
}
impl Sum {
    fn make(d: &mut D, depth: usize) -> Self {
        if depth == 0 || d.chance(1, 3) {
            let sign = if d.chance(1, 6) { "-" } else { "" };
            Self::Number(match d.below(4) {
                0 => format!("{sign}{}.{}", d.below(100), d.below(1000)),
                1 => format!("{sign}{}", d.below(3)),
                2 => format!("{sign}.{}", d.below(100)),
                _ => format!("{sign}{}", d.below(100_000)),
            })
        } else {
            let op = *d.pick(&['+', '-', '*', '/', '%', '^']);
            Self::Op(Box::new(Self::make(d, depth - 1)), op, Box::new(Self::make(d, depth - 1)))
        }
    }
    fn level(op: char) -> u8 {
        match op {
            '+' | '-' => 1,
            '^' => 3,
            _ => 2,
        }
    }
    fn write(&self, d: &mut D, o: &mut String) {
        let gap = |d: &mut D, o: &mut String| {
            if d.chance(1, 3) {
                o.push(' ');
            }
        };
        match self {
            Self::Number(n) => o.push_str(n),
            Self::Op(a, op, b) => {
                for (left, x) in [(true, a), (false, b)] {
                    let needed = match &**x {
                        Self::Number(_) => false,
                        Self::Op(_, inner, _) => {
                            let (i, l) = (Self::level(*inner), Self::level(*op));
                            // + - * / % group to the left, ^ to the right
                            i < l || (i == l && (left == (l == 3)))
                        }
                    };
                    let wrap = needed || d.chance(1, 8);
                    if wrap {
                        o.push('(');
                        gap(d, o);
                    }
                    x.write(d, o);
                    gap(d, o);
                    if wrap {
                        o.push(')');
                        gap(d, o);
                    }
                    if left {
                        o.push(*op);
                        gap(d, o);
                    }
                }
            }
        }
    }
    fn value(&self) -> f64 {
        match self {
            Self::Number(n) => n.parse().expect("number"),
            Self::Op(a, op, b) => {
                let (a, b) = (a.value(), b.value());
                match op {
                    '+' => a + b,
                    '-' => a - b,
                    '*' => a * b,
                    '/' => a / b,
                    '%' => a % b,
                    _ => a.powf(b),
                }
            }
        }
    }
}
fn sums(d: &mut D, c: &mut Case) -> R {
    let s = Sum::make(d, 4);
    let mut text = String::new();
    s.write(d, &mut text);
    c.input(&text);
    c.nontrivial(matches!(s, Sum::Op(..)));
    let (got, want) = (hemtt_common::math::eval(&text), s.value());
    let same = got.is_some_and(|g| g == want || (g.is_nan() && want.is_nan()));
    ensure!(same, "value", "{text} is {got:?} instead of {want}");
    // mistakes
    let chars: Vec<char> = text.chars().collect();
    let bad = match d.below(6) {
        0 => format!("{text})"),
        1 => format!("({text}"),
        2 => format!("{text} {}", d.pick(&['+', '-', '*', '/', '%', '^'])),
        3 => format!("{} {text}", d.pick(&['+', '*', '/', '%', '^'])),
        4 => format!("{text} 1"),
        _ => {
            let at = d.usize(0, chars.len());
            let x = *d.pick(&['a', '&', ',', ';', 'é', '"', '\n']);
            chars[..at].iter().chain(&[x]).chain(&chars[at..]).collect()
        }
    };
    let got = hemtt_common::math::eval(&bad);
    ensure!(got.is_none(), "accepted", "{bad:?} is {got:?}");
    Ok(())
}

fn stored(d: &mut D, c: &mut Case) -> R {
    #[derive(serde::Serialize, serde::Deserialize)]
    struct Holder {
        v: PDriveOption,
    }
    let v = *d.pick(&[PDriveOption::Disallow, PDriveOption::Ignore, PDriveOption::Require]);
    c.input(&format!("{v:?}"));
    c.nontrivial(v != PDriveOption::Ignore);
    let text = toml::to_string(&Holder { v }).map_err(|e| Fail::new("store", e.to_string()))?;
    let back = toml::from_str::<Holder>(&text).map_err(|e| Fail::new("not read back", format!("{text}: {e}")))?;
    ensure!(back.v == v, "stored", "{:?} instead of {v:?}", back.v);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "G05",
        level: "exploration",
        rule: "more than one value, a prefix that is not empty, or at least one operator",
        facets: vec![
            Facet::new("packed", 60_000, 3_000_000, packed),
            Facet::new("damaged", 40_000, 2_000_000, damaged),
            Facet::new("strip", 60_000, 3_000_000, strip),
            Facet::new("sums", 60_000, 3_000_000, sums),
            Facet::new("stored", 100, 1_000, stored),
        ],
        probes: vec![],
        assumptions: &[],
    }]
}
