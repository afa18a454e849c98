use crate::ws;
use hemtt_config::rapify::Rapify;
use std::collections::{BTreeSet, HashSet};
use vpc::rap::{self, Entry, Print, Val};
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

const WORDS: &[&str] = &["a", "B", "value", "scope", "CfgVehicles", "CfgPatches", "x_1", "0day", "Data", "author", "model", "units", "classes", "deleted", "CfgX", "e5", "_", "displayName"];

fn ident(d: &mut D, taken: &mut HashSet<String>) -> String {
    for _ in 0..20 {
        let mut s = (*d.pick(WORDS)).to_string();
        if d.chance(2, 5) {
            s.push_str(&d.string_of(&['a', 'B', '0', '_', 'z', '9'], 1, 4));
        }
        if taken.insert(s.to_lowercase()) {
            return s;
        }
    }
    let s = format!("unique{}", taken.len());
    taken.insert(s.clone());
    s
}

fn text(d: &mut D) -> String {
    const CH: &[char] = &['a', 'Z', '0', ' ', '"', '\'', ',', ';', '{', '}', '=', '[', '/', '*', '\\', '#', '<', 'é', '漢', '😀', '(', ')', '%', '&', '@', '.', '-', '+', '|', '!', '?', '$', '^', ':', '\t', '€', 'n'];
    match d.weighted(&[3, 2, 4, 1]) {
        0 => String::new(),
        1 => (*d.pick(&["hello world", "\\z\\mod\\addons\\main\\data\\x.paa", "a // b", "/* c */", "#include \"x\"", "it's", "params [\"\"_x\"\"];", "{1,2}", "class A {};", "1.5", "<t size='1.5'>x</t>", "\"\"", "a\"b", "##", "__EVAL(1)", "\\", "a\\n b"])).to_string(),
        2 => d.string_of(CH, 1, 12),
        _ => {
            let n = d.usize(100, 400);
            let c = *d.pick(CH);
            std::iter::repeat(c).take(n).collect()
        }
    }
}

/// A value together with its spelling.
#[derive(Clone, Debug)]
enum Lit {
    Text(Vec<String>),
    Raw(String, Val),
    Expr(String),
    Arr(Vec<Lit>),
}
impl Lit {
    fn val(&self) -> Val {
        match self {
            Self::Text(s) => Val::Str(s.join("\n")),
            Self::Raw(_, v) => v.clone(),
            Self::Expr(e) => Val::Expr(e.clone()),
            Self::Arr(v) => Val::Arr(v.iter().map(Self::val).collect()),
        }
    }
}
fn expr(d: &mut D) -> String {
    let mut s = String::new();
    for i in 0..d.range(1, 3) {
        if i > 0 {
            s.push_str(d.pick(&[" + ", "*", " max ", ","]));
        }
        if d.chance(1, 3) {
            s.push('(');
            s.push_str(&d.string_of(&['a', '1', ' ', '+', '_'], 1, 6));
            s.push(')');
        } else {
            s.push_str(d.pick(&["getResolution select 5", "1", "safeZoneX", "0.5", "a b", "[1,2]"]));
        }
    }
    s
}
fn lit(d: &mut D, depth: u32, array: bool) -> Lit {
    match d.weighted(&[5, 6, if array { 0 } else { 1 }, if array && depth > 0 { 3 } else { 0 }]) {
        0 => {
            let mut v = vec![text(d)];
            if d.chance(1, 8) {
                v.push(text(d));
            }
            // a backslash at the end of a line joins lines
            let last = v.len() - 1;
            for s in &mut v[..last] {
                while s.ends_with('\\') {
                    s.pop();
                }
            }
            Lit::Text(v)
        }
        1 => {
            let (t, v) = rap::number(d);
            Lit::Raw(t, v)
        }
        2 => Lit::Expr(expr(d)),
        _ => Lit::Arr(items(d, depth - 1)),
    }
}
fn items(d: &mut D, depth: u32) -> Vec<Lit> {
    if d.chance(1, 40) {
        let n = *d.pick(&[127usize, 128, 129, 300]);
        let (t, v) = rap::number(d);
        return vec![Lit::Raw(t, v); n];
    }
    d.vec(6, |d| lit(d, depth, true))
}

#[derive(Clone, Debug)]
enum P {
    Value(String, Lit),
    Array(String, Vec<Lit>, bool),
    Class(String, Option<String>, Vec<P>),
    Extern(String),
    Delete(String),
}
impl P {
    fn name(&self) -> &str {
        match self {
            Self::Value(n, _) | Self::Array(n, _, _) | Self::Class(n, _, _) | Self::Extern(n) | Self::Delete(n) => n,
        }
    }
    fn model(&self) -> Entry {
        match self {
            Self::Value(n, l) => Entry::Value(n.clone(), l.val()),
            Self::Array(n, v, false) => Entry::Array(n.clone(), v.iter().map(Lit::val).collect()),
            Self::Array(n, v, true) => Entry::Expand(n.clone(), v.iter().map(Lit::val).collect()),
            Self::Class(n, p, b) => Entry::Class(n.clone(), p.clone(), b.iter().map(Self::model).collect()),
            Self::Extern(n) => Entry::Extern(n.clone()),
            Self::Delete(n) => Entry::Delete(n.clone()),
        }
    }
}

/// Entries of one class. Names are unique in it and parents come earlier, spelled the same.
fn body(d: &mut D, depth: u32, known: &mut Vec<String>, max: usize) -> Vec<P> {
    let mut taken = HashSet::new();
    let mut own: Vec<String> = Vec::new();
    let n = d.len(max);
    let mut v = Vec::new();
    for _ in 0..n {
        let name = ident(d, &mut taken);
        v.push(match d.weighted(&[5, 3, 1, if depth > 0 { 5 } else { 0 }, 1, 1]) {
            0 => P::Value(name, lit(d, 0, false)),
            1 => P::Array(name, items(d, 3), false),
            2 => P::Array(name, items(d, 2), true),
            3 => {
                let parent = if d.chance(2, 5) && !own.is_empty() {
                    Some(d.pick(&own).clone())
                } else if d.chance(1, 12) {
                    Some(name.clone())
                } else if d.chance(1, 4) && !known.is_empty() {
                    Some(d.pick(known).clone())
                } else {
                    None
                };
                // one spelling per name over the whole file
                let name = respell(known, name);
                let parent = parent.map(|p| respell(known, p));
                known.push(name.clone());
                own.push(name.clone());
                let b = body(d, depth - 1, known, max);
                P::Class(name, parent, b)
            }
            4 => {
                let name = respell(known, name);
                known.push(name.clone());
                own.push(name.clone());
                P::Extern(name)
            }
            _ => P::Delete(name),
        });
    }
    v
}
fn respell(known: &[String], name: String) -> String {
    known.iter().find(|k| k.eq_ignore_ascii_case(&name)).cloned().unwrap_or(name)
}

fn print_lit(p: &mut Print, l: &Lit) {
    match l {
        Lit::Text(v) => {
            for (i, s) in v.iter().enumerate() {
                if i > 0 {
                    p.ws();
                    p.out.push_str(if p.d.bool() { "\\n" } else { " \\n " });
                    p.ws();
                }
                if p.d.chance(1, 10) {
                    // continued on further lines
                    p.out.push('"');
                    let often = *p.d.pick(&[4, 4, 1]);
                    for ch in s.chars() {
                        if ch != '#' && p.d.chance(1, often) {
                            p.out.push_str("\\\n");
                        }
                        p.out.push(ch);
                        if ch == '"' {
                            p.out.push(ch);
                        }
                    }
                    p.out.push('"');
                } else {
                    p.string(s);
                }
            }
        }
        Lit::Raw(t, _) => p.out.push_str(t),
        Lit::Expr(e) => {
            p.out.push_str("__EVAL(");
            p.out.push_str(e);
            p.out.push(')');
        }
        Lit::Arr(v) => print_items(p, v),
    }
}
fn print_items(p: &mut Print, v: &[Lit]) {
    p.out.push('{');
    p.ws();
    for (i, l) in v.iter().enumerate() {
        if i > 0 {
            p.out.push(',');
            p.ws();
        }
        print_lit(p, l);
        p.ws();
    }
    if !v.is_empty() && p.d.chance(1, 8) {
        p.out.push(',');
        p.ws();
    }
    p.out.push('}');
}
thread_local! {
    /// Where the statements of a fault are in the printed text.
    static MARKS: std::cell::RefCell<Vec<(String, usize, usize)>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn print_one(p: &mut Print, e: &P, semi: bool) {
    let start = p.out.len();
    print_statement(p, e, semi);
    if e.name().to_lowercase().starts_with("zz") {
        MARKS.with(|m| m.borrow_mut().push((e.name().to_lowercase(), start, p.out.len())));
    }
}
fn print_statement(p: &mut Print, e: &P, semi: bool) {
    match e {
        P::Value(n, l) => {
            p.out.push_str(n);
            p.ws();
            p.out.push('=');
            p.ws();
            print_lit(p, l);
        }
        P::Array(n, v, x) => {
            p.out.push_str(n);
            p.ws();
            p.out.push_str("[]");
            p.ws();
            p.out.push_str(if *x { "+=" } else { "=" });
            p.ws();
            print_items(p, v);
        }
        P::Class(n, par, b) => {
            p.out.push_str("class");
            p.sp();
            p.out.push_str(n);
            p.ws();
            if let Some(par) = par {
                p.out.push(':');
                p.ws();
                p.out.push_str(par);
                p.ws();
            }
            p.out.push('{');
            p.ws();
            for e in b {
                print_one(p, e, true);
                p.ws();
            }
            p.out.push('}');
        }
        P::Extern(n) => {
            p.out.push_str("class");
            p.sp();
            p.out.push_str(n);
        }
        P::Delete(n) => {
            p.out.push_str("delete");
            p.sp();
            p.out.push_str(n);
        }
    }
    if semi {
        if !matches!(e, P::Delete(_)) {
            p.ws();
        }
        p.out.push(';');
    }
}
fn print(d: &mut D, v: &[P], comments: bool) -> String {
    let mut p = Print { d, out: String::new(), comments };
    p.ws();
    for e in v {
        print_one(&mut p, e, true);
        p.ws();
    }
    p.out
}
fn count(v: &[P]) -> usize {
    v.iter().map(|p| 1 + if let P::Class(_, _, b) = p { count(b) } else { 0 }).sum()
}

fn processed(t: &str) -> Result<hemtt_workspace::reporting::Processed, Fail> {
    ws::preprocess(t).map_err(|e| Fail::new("preprocess-error", format!("a valid config is rejected by the preprocessor: {e}\n{t}")))
}
fn binary(c: &hemtt_config::Config) -> Result<Vec<u8>, Fail> {
    let mut out = Vec::new();
    let n = c.rapify(&mut out, 0).map_err(|e| Fail::new("rapify-error", e.to_string()))?;
    ensure!(n == out.len(), "written-count", "{} bytes written, {n} reported", out.len());
    ensure!(c.rapified_length() == out.len(), "length", "{} bytes written, {} announced", out.len(), c.rapified_length());
    Ok(out)
}

/// Where two configs first differ.
fn diff(a: &[Entry], b: &[Entry], at: &str) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            if let (Entry::Class(n, p, s), Entry::Class(m, q, t)) = (x, y) {
                if n == m && p == q {
                    return diff(s, t, &format!("{at}/{n}"));
                }
            }
            return Some(format!("{at} entry {i}: the text says {x:?}, the binary {y:?}"));
        }
    }
    (a.len() != b.len()).then(|| format!("{at}: {} entries in the text, {} in the binary", a.len(), b.len()))
}

/// Configs of real addons: hundreds of classes and entries, long texts, deep nesting.
fn large(d: &mut D, c: &mut Case) -> R {
    fn small(d: &mut D, n: usize) -> Vec<P> {
        let mut taken = HashSet::new();
        (0..n)
            .map(|_| {
                let name = ident(d, &mut taken);
                if d.chance(1, 3) { P::Array(name, items(d, 1), d.bool()) } else { P::Value(name, lit(d, 0, false)) }
            })
            .collect()
    }
    let mut cfg = Vec::new();
    for k in 0..d.range(1, 3) {
        let name = format!("Part{k}");
        match d.below(6) {
            0 => {
                // deep
                let depth = d.usize(10, 60);
                let mut b = small(d, 2);
                for i in 0..depth {
                    let mut outer = if d.bool() { vec![P::Class(format!("Before{i}"), None, vec![])] } else { vec![] };
                    let parent = (!outer.is_empty() && d.bool()).then(|| format!("Before{i}"));
                    outer.push(P::Class(format!("Level{i}"), parent, b));
                    if d.bool() {
                        outer.push(P::Value(format!("after{i}"), lit(d, 0, false)));
                    }
                    b = outer;
                }
                cfg.push(P::Class(name, None, b));
            }
            1 => {
                // wide
                let n = *d.pick(&[60usize, 127, 128, 129, 200, 256, 300]);
                let b = (0..n)
                    .map(|i| match d.below(8) {
                        0 => P::Extern(format!("Item{i}")),
                        1 => P::Delete(format!("Item{i}")),
                        2 => P::Value(format!("Item{i}"), lit(d, 0, false)),
                        _ => P::Class(format!("Item{i}"), None, small(d, 1)),
                    })
                    .collect();
                cfg.push(P::Class(name, None, b));
            }
            2 => {
                // long lists
                let n = *d.pick(&[1000usize, 16383, 16384, 16390]);
                let v: Vec<Lit> = (0..n).map(|i| Lit::Raw(i.to_string(), Val::I32(i as i32))).collect();
                let v = if d.bool() { vec![Lit::Arr(v), Lit::Arr(vec![])] } else { v };
                cfg.push(P::Array(name, v, d.bool()));
            }
            3 => {
                // long texts and names
                let n = *d.pick(&[255usize, 256, 300, 5000, 32_767, 40_000, 65_535, 65_536, 70_000]);
                let ch = *d.pick(&['a', ' ', '"', 'é', '漢', '😀']);
                let s: String = std::iter::repeat(ch).take(n).collect();
                let long: String = std::iter::repeat('N').take(d.usize(100, 400)).collect();
                cfg.push(P::Class(name, None, vec![P::Value("text".into(), Lit::Text(vec![s])), P::Class(long.clone(), None, small(d, 1)), P::Class("Child".into(), Some(long), small(d, 2))]));
            }
            4 => {
                // many entries of one class
                let n = *d.pick(&[126usize, 127, 128, 255, 256, 400]);
                let b = (0..n).map(|i| P::Value(format!("entry{i}"), lit(d, 0, false))).collect();
                cfg.push(P::Class(name, None, b));
            }
            _ => {
                // arrays in arrays
                let mut v = items(d, 1);
                for _ in 0..d.usize(4, 30) {
                    v = if d.bool() { vec![Lit::Arr(v)] } else { vec![Lit::Raw("1".into(), Val::I32(1)), Lit::Arr(v), Lit::Text(vec!["x".into()])] };
                }
                cfg.push(P::Array(name, v, false));
            }
        }
        if d.bool() {
            cfg.push(P::Class(format!("Last{k}"), None, small(d, 2)));
        }
    }
    let t = print(d, &cfg, false);
    c.input_bytes(t.as_bytes());
    c.nontrivial(t.len() > 1000);
    c.note_if(t.len() > 70_000, "more than 70,000 bytes");
    says(d, &cfg, &t)
}
fn compile(d: &mut D, c: &mut Case) -> R {
    let max = if c.thorough { 14 } else { 7 };
    let cfg = body(d, 3, &mut Vec::new(), max);
    let t = print(d, &cfg, true);
    c.input(&t);
    let n = count(&cfg);
    c.nontrivial(n >= 2);
    c.note_if(n >= 10, "10+ entries");
    c.note_if(cfg.iter().any(|p| matches!(p, P::Class(_, Some(_), _))), "inheritance");
    says(d, &cfg, &t)
}
/// The binary of a valid config has exactly the entries of its text.
fn says(d: &mut D, cfg: &[P], t: &str) -> R {
    let want: Vec<Entry> = cfg.iter().map(P::model).collect();
    let pr = processed(t)?;
    let rep = match hemtt_config::parse(None, &pr) {
        Ok(r) => r,
        Err(e) => return Err(Fail::new("valid-rejected", format!("a valid config is rejected: {:?}\n{t}", ws::idents(&e)))),
    };
    let ids = ws::idents(rep.codes());
    ensure!(ids.is_empty(), "false-report", "a config with nothing wrong is reported as {ids:?}\n{t}");
    let bin = binary(rep.config())?;
    let got = rap::decode(&bin).map_err(|e| Fail::new("bad-binary", format!("{e}\n{t}")))?;
    if let Some(m) = diff(&want, &got, "") {
        return Err(Fail::new("differs", format!("{m}\n{t}")));
    }
    // an output that fails is reported, whatever byte it fails at
    let at = d.usize(0, bin.len() - 1);
    let mut w = vpc::gen::Failing::new(at, 1 << 20);
    ensure!(rep.config().rapify(&mut w, 0).is_err(), "write-error-lost", "the output fails after {at} of {} bytes, but writing succeeds", bin.len());
    Ok(())
}

/// A number, alone or in an array, with white space around it.
fn numbers(d: &mut D, c: &mut Case) -> R {
    let n = d.usize(1, 6);
    let mut t = String::new();
    let mut want = Vec::new();
    for i in 0..n {
        let (s, v) = rap::number(d);
        let (a, b) = (*d.pick(&["", " ", "  ", "\n", "\t"]), *d.pick(&["", " ", "  ", "\n", "\t", " /* x */ "]));
        if d.bool() {
            t.push_str(&format!("n{i} ={a}{s}{b};\n"));
            want.push(Entry::Value(format!("n{i}"), v));
        } else {
            let (s2, v2) = rap::number(d);
            t.push_str(&format!("n{i}[] = {{{a}{s}{b},{b}{s2}{a}}};\n"));
            want.push(Entry::Array(format!("n{i}"), vec![v, v2]));
        }
    }
    c.input(&t);
    c.nontrivial(true);
    let pr = processed(&t)?;
    let rep = hemtt_config::parse(None, &pr).map_err(|e| Fail::new("valid-rejected", format!("{:?}\n{t}", ws::idents(&e))))?;
    let ids = ws::idents(rep.codes());
    ensure!(ids.is_empty(), "false-report", "numbers are reported as {ids:?}\n{t}");
    let got = rap::decode(&binary(rep.config())?).map_err(|e| Fail::new("bad-binary", format!("{e}\n{t}")))?;
    if let Some(m) = diff(&want, &got, "") {
        return Err(Fail::new("number", format!("{m}\n{t}")));
    }
    Ok(())
}

/// Any text: an error is reported, or the binary is well formed. Nothing panics.
/// A report that quotes the line of an error quotes all of it, and that line.
fn quotes_line(t: &str, code: &dyn hemtt_workspace::reporting::Code, c: &mut Case) -> R {
    let Some(diag) = code.diagnostic() else { return Ok(()) };
    let Some(label) = diag.labels.iter().find(|l| l.to_codespan().style == codespan_reporting::diagnostic::LabelStyle::Primary) else { return Ok(()) };
    let Some(quote) = diag.notes.iter().find_map(|n| n.strip_prefix("The processed output of the line with the error was:\n")) else { return Ok(()) };
    let at = label.to_codespan().range.start;
    ensure!(t.is_char_boundary(at), "quote-place", "{} is at byte {at} of {t:?}", code.ident());
    let last = t.chars().next_back().map_or(0, char::len_utf8);
    if at + last >= t.len() {
        // an error at the end is told at the last character
        return Ok(());
    }
    let quote = quote.strip_suffix(' ').unwrap_or(quote);
    let from = t[..at].rfind('\n').map_or(0, |x| x + 1);
    let to = t[at..].find('\n').map_or(t.len(), |x| x + at);
    let line = &t[from..to];
    c.note("line quoted");
    c.note_if(!t[..to].is_ascii(), "line quoted behind non-ASCII text");
    // (an error can span lines, then more than the first are quoted)
    let first = quote.lines().next().unwrap_or("");
    ensure!(first.trim() == line.trim() || line.trim().is_empty() && first.trim().is_empty(), "quote", "{} at byte {at} quotes {quote:?} instead of {line:?} of {t:?}", code.ident());
    Ok(())
}
fn any_text(d: &mut D, c: &mut Case) -> R {
    let t = match d.weighted(&[4, 3, 2]) {
        0 => {
            let cfg = body(d, 2, &mut Vec::new(), 5);
            let mut t: Vec<char> = print(d, &cfg, true).chars().collect();
            for _ in 0..d.range(1, 4) {
                if t.is_empty() {
                    break;
                }
                let i = d.usize(0, t.len() - 1);
                match d.below(4) {
                    0 => {
                        t.remove(i);
                    }
                    1 => t.insert(i, *d.pick(&[';', '{', '}', '"', ',', '=', '[', ']', ':', '(', ')', '-', '+', '.', 'e', '0', ' ', '\n', 'é', '\\', '#', '\''])),
                    2 => {
                        let j = d.usize(i, t.len().min(i + 12) - 1);
                        t.drain(i..=j);
                    }
                    _ => {
                        let j = d.usize(0, t.len() - 1);
                        t.swap(i, j);
                    }
                }
            }
            t.into_iter().collect()
        }
        1 => {
            const TOK: &[&str] = &["class ", "class", "delete ", "A", "b", "=", "[]", "[] = ", "+=", "{", "}", "};", ";", ":", ",", "\"x\"", "\"", "1", "-1", "0x1F", "1.5", ".", "e", "+", "*", "(", ")", "^", "__EVAL", "__EVAL(1)", "__EVAL(", "\\n", "'s'", "é", "//", "/*", "*/", "1.0.0", "99999999999999999999", "0xFFFFFFFFFFFFFFFFFF", "1e999", "\t", "[", "]"];
            let n = d.usize(0, 25);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(d.pick(TOK));
                if d.chance(1, 3) {
                    s.push(*d.pick(&[' ', '\n']));
                }
            }
            s
        }
        _ => d.string_of(&['a', '=', ';', '{', '}', '"', '[', ']', ' ', '\n', '1', '.', ':', 'c', 'l', 's', ',', '-', '(', ')', '\\', 'é', '_', '\'', '+'], 0, 60),
    };
    c.input(&t);
    c.nontrivial(t.chars().filter(|c| !c.is_whitespace()).count() >= 2);
    let Ok(pr) = ws::preprocess(&t) else {
        c.note("preprocessor error");
        return Ok(());
    };
    match hemtt_config::parse(None, &pr) {
        Err(e) => {
            c.note("parse error");
            ensure!(!e.is_empty(), "silent-error", "rejected without a reason: {t}");
            ws::idents(&e);
            for code in &e {
                // (with nothing left there is no place to tell)
                ensure!(pr.as_str().is_empty() || code.diagnostic().is_some(), "no-report", "{} can not be displayed: {t:?}", code.ident());
            }
            if pr.as_str() == t {
                for code in &e {
                    quotes_line(&t, &**code, c)?;
                }
            }
        }
        Ok(r) => {
            let ids = ws::idents(r.codes());
            let _ = r.required_version();
            if r.errors().is_empty() {
                c.note(if ids.is_empty() { "clean" } else { "warnings" });
                rap::decode(&binary(r.config())?).map_err(|e| Fail::new("bad-binary", format!("{e}\n{t}")))?;
            } else {
                c.note("lint error");
            }
        }
    }
    Ok(())
}

// ---- faults --------------------------------------------------------------------------------

/// All class bodies of a config, addressed by the path of indices leading to them.
fn scopes(v: &[P], at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    for (i, p) in v.iter().enumerate() {
        if let P::Class(_, _, b) = p {
            at.push(i);
            scopes(b, at, out);
            at.pop();
        }
    }
}
fn scope<'a>(v: &'a mut Vec<P>, at: &[usize]) -> &'a mut Vec<P> {
    let mut v = v;
    for i in at {
        let P::Class(_, _, b) = &mut v[*i] else { unreachable!() };
        v = b;
    }
    v
}
fn flip_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect()
}

fn faults(d: &mut D, c: &mut Case) -> R {
    let mut cfg = body(d, 3, &mut Vec::new(), 5);
    let mut all = Vec::new();
    scopes(&cfg, &mut vec![], &mut all);
    let place = d.pick(&all).clone();
    let kind = d.below(10);
    let mark = "zzfault";
    let other = "zzother";
    let caps = d.bool();
    let same = |n: &str| if caps { flip_case(n) } else { n.to_string() };
    let one = Lit::Raw("1".into(), Val::I32(1));
    let raw = |s: &str| Lit::Raw(s.into(), Val::I32(0));
    let mut warn = false;
    let (code, extra): (&str, Vec<P>) = match kind {
        0 => ("L-C01", vec![P::Value(mark.into(), raw(d.pick(&["1.0.0", "hello", "'x'", "1 +", "a b", "- ", "(1", "$x", "1 2", "true", "1..2", "a", "X"])))]),
        1 => ("L-C01", vec![P::Array(mark.into(), vec![one, raw(d.pick(&["hello", "'x'", "a.b", "true", "1 + x", "a", "X", "_"]))], d.bool())]),
        2 => {
            let first = if d.bool() { P::Value(mark.into(), one.clone()) } else { P::Array(mark.into(), vec![], false) };
            let second = match d.below(3) {
                0 => P::Value(same(mark), one),
                1 => P::Array(same(mark), vec![one], false),
                _ => P::Class(same(mark), None, vec![]),
            };
            let mut v = vec![first, second];
            if d.bool() {
                v.reverse();
            }
            if d.chance(1, 3) {
                v.push(P::Value(same(mark), Lit::Raw("2".into(), Val::I32(2))));
            }
            ("L-C02", v)
        }
        3 => {
            let a = if d.bool() { P::Extern(mark.into()) } else { P::Class(mark.into(), None, vec![]) };
            let b = if d.bool() { P::Extern(same(mark)) } else { P::Class(same(mark), None, vec![]) };
            let mut v = vec![a, b];
            while v.len() < 4 && d.chance(1, 3) {
                v.push(if d.bool() { P::Extern(mark.into()) } else { P::Class(same(mark), None, vec![]) });
            }
            ("L-C03", v)
        }
        4 => ("L-C04", vec![P::Class(mark.into(), Some(other.into()), vec![])]),
        5 => {
            warn = true;
            let def = if d.bool() { P::Extern(same(other)) } else { P::Class(same(other), None, vec![]) };
            if d.chance(1, 4) {
                ("L-C05", vec![P::Class(same(mark), Some(flip_case(&same(mark))), vec![])])
            } else {
                ("L-C05", vec![def, P::Class(mark.into(), Some(flip_case(&same(other))), vec![])])
            }
        }
        6 => {
            let v = items(d, 1);
            ("L-C06", vec![P::Value(mark.into(), Lit::Arr(v))])
        }
        7 => ("L-C07", vec![P::Value(format!("{mark}[]"), lit(d, 0, false))]),
        8 => ("L-C08", vec![P::Class(mark.into(), None, vec![])]),
        _ => ("L-C10", vec![P::Class(other.into(), None, vec![]), P::Value(mark.into(), one)]),
    };
    // the added entries go to one class, in this order, with others possibly between them
    let s = scope(&mut cfg, &place);
    let mut at = 0;
    for e in extra {
        at = d.usize(at, s.len());
        s.insert(at, e);
        at += 1;
    }
    MARKS.with(|m| m.borrow_mut().clear());
    let mut t = print(d, &cfg, false);
    let mut marks = MARKS.with(|m| m.borrow().clone());
    match kind {
        8 => {
            // no semicolon after the class (followed by something else or not)
            let i = t.find(mark).expect("fault");
            let e = t[i..].find(';').expect("semicolon") + i;
            t.replace_range(e..=e, " ");
        }
        9 => {
            let i = t.find(mark).expect("fault");
            let e = t[i..].find(';').expect("semicolon") + i;
            let new = format!("class {mark}: {other};");
            t.replace_range(i..=e, &new);
            for m in &mut marks {
                if m.1 > i {
                    m.1 = m.1 + new.len() - (e + 1 - i);
                }
                if m.2 > i {
                    m.2 = m.2 + new.len() - (e + 1 - i);
                }
            }
        }
        _ => {}
    }
    // text in front moves the fault to other lines and characters, in this file or an included one
    let mut pre = String::new();
    for i in 0..d.below(5) {
        let l = match d.below(9) {
            0 => "// é comment 漢字 😀\n".to_string(),
            1 => "/* some\n lines é😀 */\n".to_string(),
            2 => format!("#define WIDE{i}(x) x##_long_{i} = \"éé😀\"\nWIDE{i}(pre{i});\n"),
            3 => format!("#define SHORT{i} \"a\"\npre{i} = SHORT{i};\n"),
            4 => "#ifdef NOT_THERE\n a = 1;\n#else\n#endif\n".to_string(),
            5 => "#include \"extra.hpp\"\n".to_string(),
            6 => format!("#define MULTI{i} \\\n 1\npre{i} = MULTI{i};\n"),
            7 => format!("pre{i} = \"漢字 é😀\";\n"),
            _ => "\n\n".to_string(),
        };
        if !(l.starts_with("#inc") && pre.contains("#inc")) {
            pre.push_str(&l);
        }
    }
    let included = d.chance(1, 3);
    let t = format!("{pre}{t}");
    for m in &mut marks {
        m.1 += pre.len();
        m.2 += pre.len();
    }
    let extra = ("extra.hpp", "extra1 = 1;\n// é😀\nextra2 = \"é\";\n".to_string());
    let (files, at) = if included {
        let main = format!("mainfirst = 1;\n#include \"sub/inc.hpp\"\n{}", *d.pick(&["", "\nmainlast = 2;\n"]));
        (vec![("main.hpp", main), ("sub/inc.hpp", t.clone()), ("sub/extra.hpp", extra.1)], "/sub/inc.hpp")
    } else {
        (vec![("main.hpp", t.clone()), extra], "/main.hpp")
    };
    c.input(&t);
    c.note(code);
    c.nontrivial(true);
    c.note_if(!place.is_empty(), "in a nested class");
    c.note_if(included, "in an included file");
    let pr = ws::preprocess_files(&files, "main.hpp").map_err(|e| Fail::new("preprocess-error", format!("a valid config is rejected by the preprocessor: {e}\n{t}")))?;
    let rep = match hemtt_config::parse(None, &pr) {
        Ok(r) => r,
        Err(e) => {
            // a parse error is a report too
            c.note("reported as a parse error");
            ensure!(!warn && !e.is_empty(), "wrong-report", "{code} expected, the file is rejected: {:?}\n{t}", ws::idents(&e));
            return Ok(());
        }
    };
    let ids: BTreeSet<String> = ws::idents(rep.codes()).into_iter().collect();
    ensure!(ids.contains(code), "fault-missed", "{code} expected, reported: {ids:?}\n{t}");
    ensure!(ids.len() == 1, "wrong-report", "only {code} expected, reported: {ids:?}\n{t}");
    ensure!(warn || !rep.errors().is_empty(), "severity", "{code} is not an error\n{t}");
    // duplicates: every definition is marked
    if matches!(code, "L-C02" | "L-C03") {
        let low = t.to_ascii_lowercase();
        let want: BTreeSet<(usize, usize)> = low.match_indices(mark).map(|(i, m)| (i, i + m.len())).collect();
        let mut got = BTreeSet::new();
        for code in rep.codes() {
            for l in code.diagnostic().iter().flat_map(|d| &d.labels) {
                let r = l.to_codespan().range;
                ensure!(l.file().as_str().trim_start_matches('/') == at.trim_start_matches('/'), "wrong-file", "{} marks a place in {} instead of {at}\n{t}", code.ident(), l.file().as_str());
                got.insert((r.start, r.end));
            }
        }
        ensure!(got == want, "duplicates", "{code} marks {got:?} instead of all definitions {want:?}\n{t}");
        c.note_if(want.len() > 2, "more than two definitions");
    }
    // every report is on a line of the statements at fault
    let line = |at: usize| t[..at].matches('\n').count() + 1;
    for code in rep.codes() {
        let Some(diag) = code.diagnostic() else { return Err(Fail::new("no-diagnostic", format!("{} has no position\n{t}", code.ident()))) };
        let an = diag.to_annotations(&hemtt_workspace::reporting::WorkspaceFiles::new());
        ensure!(!an.is_empty(), "no-diagnostic", "{} has no position\n{t}", code.ident());
        for a in an {
            ensure!(a.path == at, "wrong-file", "{} is reported in {} instead of {at}\n{t}", code.ident(), a.path);
            let near = marks.iter().any(|m| line(m.1) <= a.start_line && a.end_line <= line(m.2) && a.start_line <= a.end_line);
            ensure!(near, "wrong-line", "{} is reported on lines {} to {}; the statements are on lines {:?}\n{t}", code.ident(), a.start_line, a.end_line, marks.iter().map(|m| (line(m.1), line(m.2))).collect::<Vec<_>>());
            // the name that is wrong is marked exactly
            let names: &[&str] = match code.ident() {
                "L-C02" | "L-C03" => &[mark],
                "L-C04" | "L-C05" => &[mark, other],
                _ => continue,
            };
            let got: String = t.lines().nth(a.start_line - 1).unwrap_or("").chars().skip(a.start_column - 1).take(a.end_column.saturating_sub(a.start_column)).collect();
            ensure!(names.iter().any(|n| got.eq_ignore_ascii_case(n)), "wrong-place", "{} marks `{got}` instead of one of {names:?}\n{t}", code.ident());
        }
    }
    Ok(())
}

/// Magazines of the project that are named by a magazine well but not defined.
fn magwells(d: &mut D, c: &mut Case) -> R {
    let names = ["abe_a", "abe_B", "ABE_c", "abe_x_1", "other_a", "rhs_B", "Abe", "xabe_q"];
    let case = |d: &mut D, n: &str| match d.below(3) {
        0 => flip_case(n),
        _ => n.to_string(),
    };
    let mut have: Vec<String> = names.iter().filter(|_| d.chance(2, 3)).map(|n| (*n).to_string()).collect();
    d.shuffle(&mut have);
    let mut mags = format!("class {} {{\n", case(d, "CfgMagazines"));
    for h in &have {
        let n = case(d, h);
        mags.push_str(&match d.below(3) {
            0 => format!("    class {n} {{ count = 30; }};\n"),
            1 => format!("    class {n} {{}};\n"),
            _ => format!("    class {n} {{ class Inner_{} {{}}; }};\n", d.below(9)),
        });
    }
    mags.push_str("};\n");
    let prefix = *d.pick(&["abe", "ABE", "rhs"]);
    let with = d.chance(3, 4);
    let toml = format!("name = \"Mod\"\nprefix = \"{prefix}\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\n");
    // where each name that is missing is written, as (text in front, name)
    let mut missing = Vec::new();
    let mut wells = format!("class {} {{\n", case(d, "CfgMagazineWells"));
    for w in 0..d.usize(1, 3) {
        wells.push_str(&format!("    class Well_{w} {{\n"));
        for a in 0..d.usize(0, 3) {
            wells.push_str(&format!("        ADDON_{a}[] {}= {{", if d.chance(1, 6) { "+" } else { "" }));
            for i in 0..d.usize(0, 4) {
                if i > 0 {
                    wells.push_str(*d.pick(&[", ", ",\n            "]));
                }
                if d.chance(1, 10) {
                    wells.push_str("5");
                    continue;
                }
                let n = *d.pick(&names);
                let n = case(d, n);
                let low = n.to_lowercase();
                if (!with || low.starts_with(&prefix.to_lowercase())) && !have.iter().any(|h| h.to_lowercase() == low) {
                    missing.push((wells.len(), n.len() + 2));
                }
                wells.push_str(&format!("\"{n}\""));
            }
            wells.push_str("};\n");
        }
        wells.push_str("    };\n");
    }
    wells.push_str("};\n");
    let front = (*d.pick(&["", "// é\n", "x = \"é\";\n", "x = \"é😀\";\n"])).to_string();
    let none = d.chance(1, 10);
    if none {
        // magazines may be those of another addon
        mags.clear();
        missing.clear();
    }
    let (t, at) = if d.bool() { (format!("{front}{mags}{wells}"), front.len() + mags.len()) } else { (format!("{front}{wells}{mags}"), front.len()) };
    let want: BTreeSet<(usize, usize)> = missing.iter().map(|m| (m.0 + at, m.0 + at + m.1)).collect();
    c.input(&format!("{with} {prefix}\n{t}"));
    c.nontrivial(!want.is_empty());
    let file = vpc::scratch().join("project.toml");
    std::fs::write(&file, &toml).expect("scratch");
    let project = with.then(|| hemtt_common::config::ProjectConfig::from_file(&file).expect("valid"));
    let pr = ws::preprocess_files(&[("main.hpp", t.clone())], "main.hpp").map_err(|e| Fail::new("preprocess-error", format!("{e}\n{t}")))?;
    let rep = hemtt_config::parse(project.as_ref(), &pr).map_err(|e| Fail::new("rejected", format!("{:?}\n{t}", ws::idents(&e))))?;
    let mut got = BTreeSet::new();
    for code in rep.codes() {
        ensure!(code.ident() == "L-C09", "wrong-report", "{} is reported\n{t}", code.ident());
        let Some(diag) = code.diagnostic() else { vpc::fail!("no-diagnostic", "{t}") };
        let r = diag.labels.first().map_or(0..0, |l| l.to_codespan().range);
        ensure!(got.insert((r.start, r.end)), "twice", "{:?} is reported twice\n{t}", t.get(r.clone()));
    }
    ensure!(got.iter().map(|g| g.0).eq(want.iter().map(|g| g.0)), "magazines", "{:?} are reported instead of {:?}\n{t}", got.iter().map(|g| t.get(g.0..g.1)).collect::<Vec<_>>(), want.iter().map(|g| t.get(g.0..g.1)).collect::<Vec<_>>());
    ensure!(want.is_empty() == rep.errors().is_empty(), "severity", "{} errors for {} missing magazines\n{t}", rep.errors().len(), want.len());
    Ok(())
}

fn patches(d: &mut D, c: &mut Case) -> R {
    let mut t = String::new();
    let n = d.usize(0, 5);
    let mut want: Vec<(String, (u32, u32, u32))> = Vec::new();
    let mut taken = HashSet::new();
    let name = *d.pick(&["CfgPatches", "cfgpatches", "CFGPATCHES"]);
    t.push_str(&format!("class {name} {{\n"));
    for _ in 0..n {
        let name = ident(d, &mut taken);
        let key = *d.pick(&["requiredVersion", "requiredversion", "RequiredVersion"]);
        t.push_str(&format!("class {name} {{ units[] = {{}}; "));
        let (maj, min) = (d.below(4) as u32, d.below(100) as u32);
        let has = d.chance(5, 6);
        if has {
            let sp = *d.pick(&["", " "]);
            t.push_str(&format!("{key} = {maj}.{min:02}{sp};"));
        }
        t.push_str(" };\n");
        want.push((name, if has { (maj, min, 0) } else { (0, 0, 0) }));
    }
    t.push_str("};\nclass Other { class A { requiredVersion = 9.5; }; };\n");
    c.input(&t);
    c.nontrivial(n >= 2);
    let pr = processed(&t)?;
    let rep = hemtt_config::parse(None, &pr).map_err(|e| Fail::new("valid-rejected", format!("{:?}\n{t}", ws::idents(&e))))?;
    let got: Vec<(String, String)> = rep.patches().iter().map(|p| (p.name().value.clone(), p.required_version().to_string())).collect();
    let show: Vec<(String, String)> = want.iter().map(|(n, v)| (n.clone(), format!("{}.{}.{}", v.0, v.1, v.2))).collect();
    ensure!(got == show, "patches", "{got:?} instead of {show:?}\n{t}");
    let (v, p) = rep.required_version();
    let best = want.iter().map(|w| w.1).max().unwrap_or((0, 0, 0));
    ensure!(v.to_string() == format!("{}.{}.{}", best.0, best.1, best.2), "required-version", "{v} instead of {best:?}\n{t}");
    ensure!(p.is_some() == (best > (0, 0, 0)), "required-version", "patch given: {}\n{t}", p.is_some());
    if let Some(p) = p {
        ensure!(want.iter().any(|w| w.0 == p.name().value && w.1 == best), "required-version", "patch {} does not need {best:?}\n{t}", p.name().value);
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            level: "exploration",
            rule: "a config with at least two entries",
            facets: vec![Facet::new("compile", 8_000, 150_000, compile), Facet::new("large", 100, 3_000, large).hang(200)],
            probes: vec![],
            assumptions: &[],
        },
        Property {
            id: "C02",
            level: "exploration",
            rule: "every case has at least one number (numbers) or two CfgPatches classes (patches)",
            facets: vec![Facet::new("numbers", 8_000, 200_000, numbers), Facet::new("patches", 2_000, 40_000, patches)],
            probes: vec![],
            assumptions: &[],
        },
        Property {
            id: "C03",
            level: "exploration",
            rule: "one fault is added to a valid config",
            facets: vec![Facet::new("faults", 8_000, 200_000, faults), Facet::new("magwells", 6_000, 200_000, magwells)],
            probes: vec![],
            assumptions: &[],
        },
        Property {
            id: "C04",
            level: "exploration",
            rule: "at least two visible characters",
            facets: vec![Facet::new("any_text", 15_000, 400_000, any_text).hang(60)],
            probes: vec![],
            assumptions: &[],
        },
    ]
}
