//! An independent model of a config, a printer with free layout, and a decoder for its binary form.
use crate::draw::D;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    F32(u32),
    I32(i32),
    I64(i64),
    Expr(String),
    Arr(Vec<Val>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Value(String, Val),
    Array(String, Vec<Val>),
    Expand(String, Vec<Val>),
    Class(String, Option<String>, Vec<Entry>),
    Extern(String),
    Delete(String),
}
impl Entry {
    pub fn name(&self) -> &str {
        match self {
            Self::Value(n, _) | Self::Array(n, _) | Self::Expand(n, _) | Self::Class(n, _, _) | Self::Extern(n) | Self::Delete(n) => n,
        }
    }
}

struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}
impl Rd<'_> {
    fn u8(&mut self) -> Result<u8, String> {
        let v = *self.b.get(self.p).ok_or_else(|| format!("ends at {}", self.p))?;
        self.p += 1;
        Ok(v)
    }
    fn take<const N: usize>(&mut self) -> Result<[u8; N], String> {
        let s = self.b.get(self.p..self.p + N).ok_or_else(|| format!("ends at {}", self.p))?;
        self.p += N;
        Ok(s.try_into().expect("length"))
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take()?))
    }
    fn cstr(&mut self) -> Result<String, String> {
        let e = self.b[self.p..].iter().position(|x| *x == 0).ok_or("unterminated text")? + self.p;
        let s = String::from_utf8(self.b[self.p..e].to_vec()).map_err(|e| e.to_string())?;
        self.p = e + 1;
        Ok(s)
    }
    fn cint(&mut self) -> Result<usize, String> {
        let (mut v, mut sh) = (0usize, 0);
        loop {
            let b = self.u8()?;
            v |= ((b & 0x7f) as usize) << sh;
            if b < 0x80 {
                return Ok(v);
            }
            sh += 7;
            if sh > 28 {
                return Err("count too long".into());
            }
        }
    }
    fn val(&mut self, code: u8) -> Result<Val, String> {
        Ok(match code {
            0 => Val::Str(self.cstr()?),
            1 => Val::F32(u32::from_le_bytes(self.take()?)),
            2 => Val::I32(i32::from_le_bytes(self.take()?)),
            3 => Val::Arr(self.arr()?),
            4 => Val::Expr(self.cstr()?),
            6 => Val::I64(i64::from_le_bytes(self.take()?)),
            c => return Err(format!("value type {c} at {}", self.p - 1)),
        })
    }
    fn arr(&mut self) -> Result<Vec<Val>, String> {
        let n = self.cint()?;
        let mut v = Vec::new();
        for _ in 0..n {
            let c = self.u8()?;
            v.push(self.val(c)?);
        }
        Ok(v)
    }
    /// Read the class body at the current position: its parent, entries; the bodies of its
    /// classes follow it in order, and it names the offset behind them.
    fn class(&mut self) -> Result<(Option<String>, Vec<Entry>), String> {
        let parent = Some(self.cstr()?).filter(|p| !p.is_empty());
        let n = self.cint()?;
        let mut v = Vec::new();
        let mut bodies = Vec::new();
        for _ in 0..n {
            match self.u8()? {
                0 => {
                    let name = self.cstr()?;
                    bodies.push((v.len(), self.u32()?));
                    v.push(Entry::Class(name, None, vec![]));
                }
                1 => {
                    let c = self.u8()?;
                    if c == 3 {
                        return Err("array stored as a value".into());
                    }
                    let name = self.cstr()?;
                    v.push(Entry::Value(name, self.val(c)?));
                }
                2 => {
                    let name = self.cstr()?;
                    v.push(Entry::Array(name, self.arr()?));
                }
                3 => v.push(Entry::Extern(self.cstr()?)),
                4 => v.push(Entry::Delete(self.cstr()?)),
                5 => {
                    let f = self.u32()?;
                    if f != 1 {
                        return Err(format!("array flag {f}"));
                    }
                    let name = self.cstr()?;
                    v.push(Entry::Expand(name, self.arr()?));
                }
                c => return Err(format!("entry type {c} at {}", self.p - 1)),
            }
        }
        let next = self.u32()? as usize;
        for (i, off) in bodies {
            if off as usize != self.p {
                return Err(format!("class `{}` is said to be at {off}, its body is at {}", v[i].name(), self.p));
            }
            let (par, sub) = self.class()?;
            if let Entry::Class(_, p, b) = &mut v[i] {
                *p = par;
                *b = sub;
            }
        }
        if next != self.p {
            return Err(format!("a class is said to end at {next}, it ends at {}", self.p));
        }
        Ok((parent, v))
    }
}

/// Decode a whole binary config; every byte has to be accounted for.
pub fn decode(b: &[u8]) -> Result<Vec<Entry>, String> {
    let mut r = Rd { b, p: 0 };
    if r.take::<4>()? != *b"\0raP" || r.u32()? != 0 || r.u32()? != 8 {
        return Err("bad header".into());
    }
    let enums = r.u32()? as usize;
    let (parent, v) = r.class()?;
    if parent.is_some() {
        return Err("the root has a parent".into());
    }
    if enums != r.p {
        return Err(format!("enums said to be at {enums}, classes end at {}", r.p));
    }
    if r.u32()? != 0 || r.p != b.len() {
        return Err(format!("{} bytes, {} expected", b.len(), r.p));
    }
    Ok(v)
}

/// How to lay a config out as text.
pub struct Print<'a> {
    pub d: &'a mut D,
    pub out: String,
    /// Comments are allowed (they need the preprocessor).
    pub comments: bool,
}
impl Print<'_> {
    /// White space that may be empty.
    pub fn ws(&mut self) {
        match self.d.weighted(&[10, 5, 2, 1, 1]) {
            0 => {}
            1 => self.out.push(' '),
            2 => self.out.push('\n'),
            3 => self.out.push_str("\t  "),
            _ => {
                if self.comments {
                    let c = *self.d.pick(&["/* c */", "// x = \"1\";\n", "/* a\n b */", "/**/", "/* \" */", "// it's {\n"]);
                    self.out.push_str(c);
                } else {
                    self.out.push_str("\n\n");
                }
            }
        }
    }
    pub fn sp(&mut self) {
        self.out.push(' ');
        self.ws();
    }
    pub fn string(&mut self, s: &str) {
        self.out.push('"');
        self.out.push_str(&s.replace('"', "\"\""));
        self.out.push('"');
    }
}

/// Numbers as they are written, with what they denote.
pub fn number(d: &mut D) -> (String, Val) {
    match d.weighted(&[6, 5, 2, 3]) {
        0 => {
            let v = *d.pick(&[0i64, 1, 7, 42, 100, 255, 65_535, 1_000_000, 2_147_483_646, 2_147_483_647, 2_147_483_648, 4_294_967_296, 9_007_199_254_740_993, i64::MAX]);
            let v = if d.chance(1, 3) { d.i64(0, 3_000_000_000) } else { v };
            let zeros = if d.chance(1, 10) { "00" } else { "" };
            let neg = d.chance(1, 4) && v != 2_147_483_648;
            let (t, v) = if neg { (format!("-{zeros}{v}"), -v) } else { (format!("{zeros}{v}"), v) };
            (t, int(v))
        }
        1 => {
            let t = match d.below(5) {
                0 => format!("{}.{}", d.below(100_000), d.below(1000)),
                1 => format!(".{}", d.below(1000)),
                2 => format!("{}.0", d.below(40)),
                3 => (*d.pick(&["1e30", "1e-30", "3.4028235e38", "1e38", "16777217.0", "123456789.5", "0.1", "1e10", "1e-45", "2e0", "0.0", "1E5", "2.50e+3", "7.25E-2", "4294967296.5"])).into(),
                _ => format!("{}.{}e{}{}", d.below(100), d.below(100), d.pick(&["", "+", "-"]), d.below(20)),
            };
            let neg = d.chance(1, 4);
            let v: f32 = t.parse().expect("float");
            if neg {
                (format!("-{t}"), Val::F32((-v).to_bits()))
            } else {
                (t, Val::F32(v.to_bits()))
            }
        }
        2 => {
            let v = if d.bool() { d.below(0x1_0000_0000) as i64 } else { *d.pick(&[0, 0xff, 0x7fff_ffff, 0x8000_0000, 0x7fff_ffff_ffff_ffff]) };
            (if d.bool() { format!("0x{v:x}") } else { format!("0x{v:X}") }, int(v))
        }
        _ if d.chance(1, 6) => {
            // where the kinds of numbers meet
            let v = *d.pick(&[-2_147_483_648i64, -2_147_483_649, -2_147_483_647, 2_147_483_647, 2_147_483_648, 0, 1 << 52, -(1 << 52), 1 << 31, 1 << 32]);
            let k = d.range(0, 3) as i64;
            let s = match d.below(5) {
                0 => format!("{} + {k}", v - k),
                1 => format!("{} - {k}", v + k),
                2 => format!("({} * 2 + {}) / 2", v, 2 * k - 2 * k),
                3 => format!("0 + {v}"),
                _ if v < 0 => format!("0 - ({} + {k})", -v - k),
                _ => format!("({} + {k})", v - k),
            };
            (s, from_f64(v as f64))
        }
        3 if d.chance(1, 12) => {
            let (s, v) = *d.pick(&[("2^31 - 1", 2_147_483_647.0), ("2^31", 2_147_483_648.0), ("0-2^31", -2_147_483_648.0), ("2^63", 9_223_372_036_854_775_808.0), ("0 - 2^63", -9_223_372_036_854_775_808.0), ("2^62", 4_611_686_018_427_387_904.0), ("2^63 - 1024", 9_223_372_036_854_774_784.0), ("2^128", 340_282_366_920_938_463_463_374_607_431_768_211_456.0), ("1 / 3", 1.0 / 3.0)]);
            (s.into(), from_f64(v))
        }
        _ => {
            let (t, v) = math(d);
            (t, from_f64(v))
        }
    }
}
pub fn int(v: i64) -> Val {
    i32::try_from(v).map_or(Val::I64(v), Val::I32)
}
pub fn from_f64(v: f64) -> Val {
    if v.fract() == 0.0 && v >= -2_147_483_648.0 && v <= 2_147_483_647.0 {
        Val::I32(v as i32)
    } else if v.fract() == 0.0 && v.abs() < 9_223_372_036_854_775_808.0 {
        Val::I64(v as i64)
    } else {
        Val::F32((v as f32).to_bits())
    }
}

#[derive(Clone, Debug)]
pub enum M {
    N(String, f64),
    B(char, Box<M>, Box<M>),
}
fn mtree(d: &mut D, depth: u32, neg: bool) -> M {
    if depth == 0 || d.chance(1, 4) {
        let t = match d.below(5) {
            3 => (*d.pick(&["100000", "1000000", "9223372036854775807"])).to_string(),
            0 => format!("{}", d.below(20)),
            1 => format!("{}.{}", d.below(20), d.below(10)),
            2 => format!("{}", d.below(5000)),
            _ => (*d.pick(&["0.5", "2", "10", "1", "3", "0.25", "100"])).to_string(),
        };
        let v: f64 = t.parse().expect("number");
        if neg && d.chance(1, 8) {
            return M::N(format!("-{t}"), -v);
        }
        return M::N(t, v);
    }
    let op = *d.pick(&['+', '-', '*', '/', '%', '^', '+', '*']);
    let a = mtree(d, depth - 1, false);
    let b = if op == '^' {
        let (t, v) = *d.pick(&[("2", 2.0), ("2", 2.0), ("3", 3.0), ("0", 0.0), ("1", 1.0), ("-1", -1.0), ("0.5", 0.5)]);
        let e = M::N(t.into(), v);
        if d.chance(1, 5) { M::B('^', Box::new(M::N("2".into(), 2.0)), Box::new(e)) } else { e }
    } else {
        mtree(d, depth - 1, true)
    };
    M::B(op, Box::new(a), Box::new(b))
}
pub fn mval(m: &M) -> f64 {
    match m {
        M::N(_, v) => *v,
        M::B(o, a, b) => {
            let (a, b) = (mval(a), mval(b));
            match o {
                '+' => a + b,
                '-' => a - b,
                '*' => a * b,
                '/' => a / b,
                '%' => a % b,
                _ => a.powf(b),
            }
        }
    }
}
const fn prec(o: char) -> u8 {
    match o {
        '+' | '-' => 1,
        '^' => 3,
        _ => 2,
    }
}
fn mprint(d: &mut D, m: &M, out: &mut String) {
    match m {
        M::N(t, _) => out.push_str(t),
        M::B(o, a, b) => {
            let side = |d: &mut D, x: &M, right: bool, out: &mut String| {
                let need = match x {
                    M::N(t, _) => *o == '^' && !right && t.starts_with('-'),
                    // left associative, except `^`
                    M::B(p, _, _) => prec(*p) < prec(*o) || (prec(*p) == prec(*o) && (right != (*o == '^'))),
                };
                if need || d.chance(1, 6) {
                    out.push('(');
                    if d.chance(1, 4) {
                        out.push(' ');
                    }
                    mprint(d, x, out);
                    if d.chance(1, 4) {
                        out.push(' ');
                    }
                    out.push(')');
                } else {
                    mprint(d, x, out);
                }
            };
            side(d, a, false, out);
            let s = *d.pick(&[" ", "", "  "]);
            out.push_str(s);
            out.push(*o);
            out.push_str(if s.is_empty() && d.bool() { "" } else { s });
            side(d, b, true, out);
        }
    }
}
/// A sum of terms, printed with as few or as many brackets as the choices say.
pub fn math(d: &mut D) -> (String, f64) {
    let op = *d.pick(&['+', '-', '*', '/', '%', '^']);
    let depth = d.range(0, 2) as u32;
    let a = mtree(d, depth, true);
    let b = if op == '^' { M::N("3".into(), 3.0) } else { mtree(d, depth, true) };
    let m = M::B(op, Box::new(a), Box::new(b));
    let v = mval(&m);
    if v.is_nan() || v.is_infinite() || v.abs() > 1e37 {
        return ("1 + 1".into(), 2.0);
    }
    let mut s = String::new();
    mprint(d, &m, &mut s);
    (s, v)
}
