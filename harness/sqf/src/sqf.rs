//! SQF: parsing, compiling and optimizing scripts.
use crate::ws;
use hemtt_sqf::parser::database::Database;
use hemtt_sqf::parser::{run, ParserError};
use hemtt_sqf::{Expression, Statement, Statements};
use hemtt_workspace::reporting::Processed;
use std::sync::OnceLock;
use vpc::{ensure, fail, Case, Facet, Fail, Property, D, R};

pub fn database() -> &'static Database {
    static DB: OnceLock<Database> = OnceLock::new();
    DB.get_or_init(|| Database::a3(false))
}

// ---- tokens and the reference parser ----

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(String),
    /// meaning, quote
    Str(String, char),
    Word(String),
    Op(&'static str),
    Bad(char),
}
pub const OPS: [&str; 18] = ["||", "&&", "==", "!=", ">>", ">=", "<=", ">", "<", "!", "+", "-", "*", "/", "%", "^", ":", "#"];
pub const CONTROL: [&str; 9] = [";", ",", "(", ")", "[", "]", "{", "}", "="];
impl Tok {
    pub fn text(&self) -> String {
        match self {
            Self::Num(t) | Self::Word(t) => t.clone(),
            Self::Str(s, q) => format!("{q}{}{q}", s.replace(*q, &format!("{q}{q}"))),
            Self::Op(o) => (*o).to_string(),
            Self::Bad(c) => c.to_string(),
        }
    }
}

/// The position of a token is its index in the list of tokens.
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Num(u32),
    Str(String),
    Bool(bool),
    Nular(String, usize),
    Var(String, usize),
    /// elements, position of the first one
    Arr(Vec<E>, usize),
    /// statements, first token and the one after the last
    Code(Vec<S>, usize, usize),
    Un(String, Box<E>, usize),
    Bin(String, Box<E>, Box<E>, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Expr(E),
    /// local, name, value, position
    Assign(bool, String, E, usize),
}

fn number(t: &str) -> f32 {
    t.strip_prefix("0x").or_else(|| t.strip_prefix('$')).map_or_else(|| t.parse().unwrap_or(0.0), |h| u32::from_str_radix(h, 16).unwrap_or(0) as f32)
}
pub fn special(w: &str) -> bool {
    ["true", "false", "or", "and", "else", "max", "min", "mod", "atan2"].contains(&w)
}
/// Level of a binary operator and its canonical name
fn binary(t: &Tok) -> Option<(u8, String)> {
    let (level, name) = match t {
        Tok::Op(o) => (
            match *o {
                "||" => 1,
                "&&" => 2,
                "==" | "!=" | ">" | "<" | ">=" | "<=" | ">>" => 3,
                ":" => 4,
                "+" | "-" => 6,
                "*" | "/" | "%" => 7,
                "^" => 8,
                "#" => 9,
                _ => return None,
            },
            *o,
        ),
        Tok::Word(w) => match w.to_ascii_lowercase().as_str() {
            "or" => (1, "||"),
            "and" => (2, "&&"),
            "else" => (5, "else"),
            "max" => (6, "max"),
            "min" => (6, "min"),
            "mod" => (7, "mod"),
            "atan2" => (7, "atan2"),
            _ if database().has_binary_command(w) => (4, w.as_str()),
            _ => return None,
        },
        _ => return None,
    };
    Some((level, name.to_string()))
}
struct Parser<'a> {
    t: &'a [Tok],
    i: usize,
}
impl Parser<'_> {
    fn op(&self, o: &str) -> bool {
        self.t.get(self.i) == Some(&match OPS.iter().chain(&CONTROL).find(|x| **x == o) {
            Some(x) => Tok::Op(x),
            None => return false,
        })
    }
    fn eat(&mut self, o: &str) -> Option<()> {
        self.op(o).then(|| self.i += 1)
    }
    fn statements(&mut self) -> Option<Vec<S>> {
        let mut v = vec![];
        loop {
            while self.op(";") {
                self.i += 1;
            }
            if self.i == self.t.len() || self.op("}") {
                return Some(v);
            }
            v.push(self.statement()?);
            if self.i < self.t.len() && !self.op("}") && !self.op(";") {
                return None;
            }
        }
    }
    fn variable(&self, i: usize) -> Option<String> {
        match self.t.get(i) {
            Some(Tok::Word(w)) if !database().has_command(w) && !special(&w.to_ascii_lowercase()) => Some(w.clone()),
            _ => None,
        }
    }
    fn statement(&mut self) -> Option<S> {
        let start = self.i;
        let local = matches!(self.t.get(self.i), Some(Tok::Word(w)) if w.eq_ignore_ascii_case("private"));
        let at = start + usize::from(local);
        if let Some(v) = self.variable(at) {
            if self.t.get(at + 1) == Some(&Tok::Op("=")) {
                self.i = at + 2;
                return Some(S::Assign(local, v, self.expression(1)?, start));
            }
        }
        self.expression(1).map(S::Expr)
    }
    fn expression(&mut self, level: u8) -> Option<E> {
        if level == 10 {
            return self.unary();
        }
        let mut left = self.expression(level + 1)?;
        while let Some((l, name)) = self.t.get(self.i).and_then(binary) {
            if l != level {
                break;
            }
            let at = self.i;
            self.i += 1;
            let right = self.expression(level + 1)?;
            left = E::Bin(name, Box::new(left), Box::new(right), at);
        }
        Some(left)
    }
    fn unary(&mut self) -> Option<E> {
        let at = self.i;
        let name = match self.t.get(at)? {
            Tok::Op(o @ ("+" | "-" | "!")) => (*o).to_string(),
            Tok::Word(w) if database().has_unary_command(w) => w.clone(),
            _ => return self.value(),
        };
        self.i += 1;
        Some(E::Un(name, Box::new(self.unary()?), at))
    }
    fn value(&mut self) -> Option<E> {
        let at = self.i;
        self.i += 1;
        match self.t.get(at)? {
            Tok::Num(n) => Some(E::Num(number(n).to_bits())),
            Tok::Str(s, _) => Some(E::Str(s.clone())),
            Tok::Word(w) if w.eq_ignore_ascii_case("true") => Some(E::Bool(true)),
            Tok::Word(w) if w.eq_ignore_ascii_case("false") => Some(E::Bool(false)),
            Tok::Word(w) if database().has_nular_command(w) => Some(E::Nular(w.clone(), at)),
            Tok::Word(_) => self.variable(at).map(|v| E::Var(v, at)),
            Tok::Op("(") => {
                let e = self.expression(1)?;
                self.eat(")")?;
                Some(e)
            }
            Tok::Op("[") => {
                let mut v = vec![];
                if !self.op("]") {
                    loop {
                        v.push(self.expression(1)?);
                        if !self.op(",") {
                            break;
                        }
                        self.i += 1;
                    }
                }
                self.eat("]")?;
                Some(E::Arr(v, at + 1))
            }
            Tok::Op("{") => {
                let v = self.statements()?;
                let end = self.i;
                self.eat("}")?;
                Some(E::Code(v, at + 1, end))
            }
            _ => None,
        }
    }
}
pub fn reference(t: &[Tok]) -> Option<Vec<S>> {
    let mut p = Parser { t, i: 0 };
    let v = p.statements()?;
    (p.i == t.len()).then_some(v)
}

// ---- generated programs ----

const NULAR: [&str; 8] = ["player", "objNull", "nil", "allUnits", "time", "grpNull", "PLAYER", "controlNull"];
const UNARY: [&str; 16] = ["hint", "count", "call", "toLower", "toUpper", "sqrt", "random", "params", "param", "positionCameraToWorld", "if", "not", "typeOf", "str", "ToLowerANSI", "private"];
const BINARY: [&str; 18] = ["then", "select", "isEqualTo", "getVariable", "setVariable", "call", "spawn", "vectorAdd", "VectorDiff", "vectorDotProduct", "getOrDefault", "params", "param", "forEach", "exitWith", "pushBack", "do", "vectorCrossProduct"];
const VARS: [&str; 10] = ["_x", "_this", "_THIS", "my_var", "ace_main_fnc_x", "A1", "_", "thisIsLong_9", "_orx", "elsewhere"];

/// Any command of the game that is called like this
fn any_command(d: &mut D, kind: char) -> &'static str {
    static LISTS: OnceLock<[Vec<&'static str>; 2]> = OnceLock::new();
    let lists = LISTS.get_or_init(|| {
        let of = |kind: char| {
            include_str!("../../../vendor/arma3-wiki/data/commands.txt")
                .lines()
                .filter(|l| !l.starts_with("//"))
                .filter_map(|l| l.split_once(' '))
                .filter(|(n, rest)| rest.split(' ').next().is_some_and(|k| k.contains(kind) && !k.contains('n')) && n.chars().all(|c| c.is_ascii_alphanumeric()) && !special(&n.to_ascii_lowercase()))
                .map(|x| x.0)
                .collect::<Vec<_>>()
        };
        [of('u'), of('b')]
    });
    *d.pick(&lists[usize::from(kind == 'b')])
}
fn unary(d: &mut D) -> &'static str {
    if d.chance(1, 6) { any_command(d, 'u') } else { *d.pick(&UNARY) }
}
fn binary_word(d: &mut D) -> &'static str {
    if d.chance(1, 6) { any_command(d, 'b') } else { *d.pick(&BINARY) }
}
fn text(d: &mut D, q: char) -> String {
    let n = d.usize(0, 5);
    let parts: &[&str] = if q == '"' { &["a", "B", " ", "\"", "'", "//", "/*", ";", "é", "{", "1", "Z", "日", "%1", "#x"] } else { &["a", "B", " ", "'", ";", "é", "{", "1", "Z", "%1"] };
    (0..n).map(|_| *d.pick(parts)).collect()
}
fn literal(d: &mut D) -> Tok {
    Tok::Num(match d.weighted(&[6, 2, 2, 1, 1]) {
        0 => d.below(12).to_string(),
        1 => format!("{}.{}", d.below(20), d.below(1000)),
        2 => (*d.pick(&["0x1F", "$ff", "0xFFFFFFFF", "1e3", "2.5e-2", "1E+4", ".5", "1e38", "0.1", "16777217", "1e-45"])).to_string(),
        3 => d.raw().to_string().chars().take(9).collect(),
        _ => (*d.pick(&["4294967295", "4294967296", "99999999999", "10000000000000000000000"])).to_string(),
    })
}
fn word(d: &mut D, w: &str) -> Tok {
    Tok::Word(match d.weighted(&[8, 1, 1]) {
        0 => w.to_string(),
        1 => w.to_uppercase(),
        _ => w.to_lowercase(),
    })
}
struct Gen {
    budget: i64,
}
impl Gen {
    fn statements(&mut self, d: &mut D, depth: usize, out: &mut Vec<Tok>) {
        if d.chance(1, 8) {
            out.push(Tok::Op(";"));
        }
        let n = if depth == 0 { d.usize(0, 2) } else { d.len(6) };
        for i in 0..n {
            if self.budget < 0 {
                break;
            }
            if i > 0 {
                out.push(Tok::Op(";"));
                while d.chance(1, 10) {
                    out.push(Tok::Op(";"));
                }
            }
            match d.weighted(&[3, 2, 2]) {
                0 => {}
                w => {
                    if w == 2 {
                        out.push(word(d, "private"));
                    }
                    let v = *d.pick(&VARS);
                    out.push(Tok::Word(v.into()));
                    out.push(Tok::Op("="));
                }
            }
            self.expression(d, depth, 1, out);
        }
        if n > 0 && d.bool() {
            out.push(Tok::Op(";"));
        }
    }
    /// An expression that binds at least as strong as `level`
    fn expression(&mut self, d: &mut D, depth: usize, level: u8, out: &mut Vec<Tok>) {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 {
            return self.value(d, depth, out);
        }
        if d.chance(1, 12) {
            out.push(Tok::Op("("));
            self.expression(d, depth - 1, 1, out);
            out.push(Tok::Op(")"));
            return;
        }
        match d.weighted(&[4, 4, 2, 2]) {
            0 => self.value(d, depth, out),
            1 => {
                let op = match d.weighted(&[5, 4, 2]) {
                    0 => Tok::Op(*d.pick(&["+", "-", "*", "/", "%", "||", "&&", "==", "!=", ">>", ">=", "<=", ">", "<", "^", ":", "#"])),
                    1 => {
                        let w = binary_word(d);
                        word(d, w)
                    }
                    _ => {
                        let w = *d.pick(&["or", "and", "else", "max", "min", "mod", "atan2"]);
                        word(d, w)
                    }
                };
                let l = binary(&op).map_or(4, |b| b.0);
                let wrap = l < level;
                if wrap {
                    out.push(Tok::Op("("));
                }
                self.expression(d, depth - 1, l, out);
                out.push(op);
                self.expression(d, depth - 1, l + 1, out);
                if wrap {
                    out.push(Tok::Op(")"));
                }
            }
            2 => {
                let w = unary(d);
                out.push(match d.weighted(&[3, 2]) {
                    0 => word(d, w),
                    _ => Tok::Op(*d.pick(&["-", "+", "!"])),
                });
                self.expression(d, depth - 1, 10, out);
            }
            _ => self.idiom(d, depth - 1, level, out),
        }
    }
    fn value(&mut self, d: &mut D, depth: usize, out: &mut Vec<Tok>) {
        match d.weighted(&[5, 4, 2, 3, 2, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
            0 => out.push(literal(d)),
            1 => {
                let q = *d.pick(&['"', '"', '\'']);
                out.push(Tok::Str(text(d, q), q));
            }
            2 => {
                let w = *d.pick(&["true", "false", "TRUE", "False"]);
                out.push(Tok::Word(w.into()));
            }
            3 => out.push(Tok::Word((*d.pick(&VARS)).into())),
            4 => out.push(Tok::Word((*d.pick(&NULAR)).into())),
            5 => self.array(d, depth - 1, out),
            _ => self.code(d, depth - 1, out),
        }
    }
    fn array(&mut self, d: &mut D, depth: usize, out: &mut Vec<Tok>) {
        out.push(Tok::Op("["));
        if d.chance(1, 60) {
            // long, of constants
            for _ in 0..d.usize(15, 40) {
                out.extend([literal(d), Tok::Op(",")]);
            }
            self.expression(d, depth.min(1), 1, out);
            out.push(Tok::Op("]"));
            return;
        }
        for i in 0..d.len(5) {
            if i > 0 {
                out.push(Tok::Op(","));
            }
            self.expression(d, depth, 1, out);
        }
        out.push(Tok::Op("]"));
    }
    fn code(&mut self, d: &mut D, depth: usize, out: &mut Vec<Tok>) {
        out.push(Tok::Op("{"));
        self.statements(d, depth, out);
        out.push(Tok::Op("}"));
    }
    /// What scripts are made of
    fn idiom(&mut self, d: &mut D, depth: usize, level: u8, out: &mut Vec<Tok>) {
        let wrap = level > 4;
        if wrap {
            out.push(Tok::Op("("));
        }
        match d.below(5) {
            0 => {
                out.push(word(d, "if"));
                out.push(Tok::Op("("));
                self.expression(d, depth, 1, out);
                out.push(Tok::Op(")"));
                out.push(word(d, "then"));
                self.code(d, depth, out);
                if d.bool() {
                    out.push(word(d, "else"));
                    self.code(d, depth, out);
                }
            }
            1 => {
                if d.bool() {
                    self.expression(d, depth, 4, out);
                }
                out.push(Tok::Word("params".into()));
                out.push(Tok::Op("["));
                for i in 0..d.usize(0, 3) {
                    if i > 0 {
                        out.push(Tok::Op(","));
                    }
                    if d.bool() {
                        out.push(Tok::Str("_a".into(), '"'));
                    } else {
                        out.extend([Tok::Op("["), Tok::Str("_b".into(), '"'), Tok::Op(",")]);
                        self.expression(d, depth, 1, out);
                        out.push(Tok::Op("]"));
                    }
                }
                out.push(Tok::Op("]"));
            }
            2 => {
                self.expression(d, depth, 4, out);
                let w = if d.chance(1, 3) { any_command(d, 'b') } else { *d.pick(&["getVariable", "setVariable", "getOrDefault", "param", "vectorAdd"]) };
                out.push(word(d, w));
                self.array(d, depth, out);
            }
            3 => {
                let v = *d.pick(&["_this", "_this", "_THIS", "_x", "_this2", "_thisArgs"]);
                out.push(Tok::Word(v.into()));
                out.push(word(d, "call"));
                if d.bool() {
                    self.code(d, depth, out);
                } else {
                    out.push(Tok::Word("my_fnc".into()));
                }
            }
            _ => {
                self.code(d, depth, out);
                out.push(word(d, "forEach"));
                self.expression(d, depth, 5, out);
            }
        }
        if wrap {
            out.push(Tok::Op(")"));
        }
    }
}
fn program(d: &mut D) -> Vec<Tok> {
    let mut out = vec![];
    let depth = d.usize(1, 5);
    let budget = *d.pick(&[12, 40, 120]);
    Gen { budget }.statements(d, depth, &mut out);
    out
}

// ---- layout ----

pub struct Layout {
    pub files: Vec<(String, String)>,
    /// file, line (1-based)
    pub places: Vec<(usize, usize)>,
    /// byte in the file, without carriage returns
    pub offsets: Vec<usize>,
    /// where they end
    pub ends: Vec<usize>,
}
pub fn layout(d: &mut D, t: &[Tok]) -> Layout {
    let mut l = Layout { files: vec![("main.sqf".into(), String::new())], places: vec![], offsets: vec![], ends: vec![] };
    let mut at = 0;
    let newline = if d.chance(1, 8) { "\r\n" } else { "\n" };
    let dense = d.bool();
    let includes = d.chance(1, 4);
    let mut left = 0_usize;
    let constant = |t: &Tok| matches!(t, Tok::Num(_) | Tok::Str(..) | Tok::Word(_));
    for i in 0..t.len() {
        // a # begins a directive at the start of a line
        let hash = t[i] == Tok::Op("#");
        if at > 0 && left == 0 && !hash {
            // the included file ends
            at = 0;
        }
        if at == 0 && includes && !hash && d.chance(1, 20) {
            let n = l.files.len();
            l.files[0].1.push_str(&format!("{newline}#include \"inc{n}.hpp\"{newline}"));
            l.files.push((format!("inc{n}.hpp"), String::new()));
            at = n;
            left = d.usize(1, 6);
            if d.bool() {
                l.files[at].1.push_str(newline);
            }
        }
        left = left.saturating_sub(1);
        let f = &mut l.files[at].1;
        let before = i.checked_sub(1).map(|i| &t[i]);
        let glue = before.is_none_or(|b| {
            let c = |t: &Tok| matches!(t, Tok::Op("(" | ")" | "[" | "]" | "{" | "}" | "," | ";"));
            c(b) || c(&t[i]) || (constant(b) != constant(&t[i]) && !matches!(t[i], Tok::Bad(_)) && !matches!(b, Tok::Bad(_)))
        });
        let gap = match d.weighted(&[if glue && dense { 8 } else { 0 }, 6, 2, 1, 1]) {
            0 => String::new(),
            1 => " ".into(),
            2 => newline.into(),
            3 => format!(" /* c{newline} */ "),
            _ => format!(" // c{newline}\t"),
        };
        f.push_str(if hash && gap.contains('\n') { " " } else { &gap });
        l.places.push((at, f.matches('\n').count() + 1));
        l.offsets.push(f.bytes().filter(|b| *b != b'\r').count());
        f.push_str(&t[i].text());
        l.ends.push(f.bytes().filter(|b| *b != b'\r').count());
    }
    l
}
/// Where the tokens are in the processed text: byte and character
pub fn find(t: &[Tok], p: &Processed) -> Result<Vec<(usize, usize)>, Fail> {
    let text = p.as_str();
    let (mut at, mut chars) = (0, 0);
    let mut v = vec![];
    for t in t {
        while let Some(c) = text[at..].chars().next().filter(|c| c.is_whitespace()) {
            at += c.len_utf8();
            chars += 1;
        }
        let w = t.text();
        if !text[at..].starts_with(&w) {
            return Err(Fail::new("preprocessed", format!("no {w:?} at {at} of {text:?}")));
        }
        v.push((at, chars));
        at += w.len();
        chars += w.chars().count();
    }
    Ok(v)
}

// ---- comparison of trees ----

fn same_expression(want: &E, got: &Expression, at: &[(usize, usize)]) -> R {
    let place = |i: usize, what: &str| {
        let span = got.span();
        ensure!(span.start == at[i].1, "span", "{what} is at {:?} instead of {}", span, at[i].1);
        Ok(())
    };
    match (want, got) {
        (E::Num(a), Expression::Number(b, _)) if *a == b.0.to_bits() => Ok(()),
        (E::Str(a), Expression::String(b, ..)) if **a == **b => Ok(()),
        (E::Bool(a), Expression::Boolean(b, _)) if a == b => Ok(()),
        (E::Nular(a, i), Expression::NularCommand(b, _)) if a == b.as_str() => place(*i, a),
        (E::Var(a, i), Expression::Variable(b, _)) if a == b => place(*i, a),
        (E::Arr(a, i), Expression::Array(b, _)) if a.len() == b.len() => {
            if !a.is_empty() {
                place(*i - 1, "[").map_err(|f| f).or_else(|f| {
                    // white space between the bracket and the first element
                    if got.span().start + 1 == at[*i].1 { Ok(()) } else { Err(f) }
                })?;
            }
            a.iter().zip(b).try_for_each(|(a, b)| same_expression(a, b, at))
        }
        (E::Code(a, ..), Expression::Code(b)) => same_statements(a, b, at),
        (E::Un(n, a, i), Expression::UnaryCommand(m, b, _)) if n == m.as_str() => {
            place(*i, n)?;
            same_expression(a, b, at)
        }
        (E::Bin(n, a, b, i), Expression::BinaryCommand(m, x, y, _)) if n == m.as_str() => {
            place(*i, n)?;
            same_expression(a, x, at)?;
            same_expression(b, y, at)
        }
        _ => Err(Fail::new("tree", format!("{got:?}\ninstead of {want:?}"))),
    }
}
fn same_statements(want: &[S], got: &Statements, at: &[(usize, usize)]) -> R {
    ensure!(want.len() == got.content().len(), "statements", "{} statements instead of {}: {got:?}", got.content().len(), want.len());
    for (w, g) in want.iter().zip(got.content()) {
        match (w, g) {
            (S::Expr(w), Statement::Expression(g, _)) => same_expression(w, g, at)?,
            (S::Assign(false, n, w, i), Statement::AssignGlobal(m, g, s)) | (S::Assign(true, n, w, i), Statement::AssignLocal(m, g, s)) if n == m => {
                ensure!(s.start == at[*i].1, "span", "assignment to {n} at {s:?} instead of {}", at[*i].1);
                same_expression(w, g, at)?;
            }
            _ => fail!("statement", "{g:?} instead of {w:?}"),
        }
    }
    Ok(())
}
pub fn processed(l: &Layout) -> Result<Processed, Fail> {
    ws::preprocess_files(&l.files, "main.sqf").map_err(|e| Fail::new("preprocessor", format!("{e:?}")))
}
pub fn show(l: &Layout) -> String {
    l.files.iter().map(|(n, t)| format!("--- {n}\n{t}\n")).collect()
}
pub fn errors(e: &ParserError) -> Vec<String> {
    ws::idents(e.codes())
}

fn parse(d: &mut D, c: &mut Case) -> R {
    let t = program(d);
    let Some(want) = reference(&t) else {
        fail!("harness", "the reference rejects {t:?}");
    };
    let l = layout(d, &t);
    c.input(&show(&l));
    c.note_if(l.files.len() > 1, "includes");
    c.nontrivial(t.iter().filter(|t| binary(t).is_some()).count() >= 2);
    let p = processed(&l)?;
    let at = find(&t, &p)?;
    match run(database(), &p) {
        Ok(s) => {
            same_statements(&want, &s, &at)?;
            ensure!(s.source() == p.as_str(), "source", "{:?}", s.source());
            Ok(())
        }
        Err(e) => fail!("rejected", "{:?}", errors(&e)),
    }
}

fn soup(d: &mut D, c: &mut Case) -> R {
    let mut t = program(d);
    let any = |d: &mut D| match d.weighted(&[4, 4, 2, 2, 2, 1]) {
        0 => Tok::Op(*d.pick(&CONTROL)),
        1 => Tok::Op(*d.pick(&OPS)),
        2 => literal(d),
        3 => Tok::Word((*d.pick(&VARS)).into()),
        4 => {
            let w: &str = match d.below(4) {
                0 => *d.pick(&NULAR),
                1 => unary(d),
                2 => binary_word(d),
                _ => *d.pick(&["or", "and", "else", "max", "mod", "true"]),
            };
            word(d, w)
        }
        _ => Tok::Bad(*d.pick(&['?', '@', '~', '&', '|', '`'])),
    };
    if d.chance(1, 4) {
        t = d.vec(12, any);
    }
    for _ in 0..d.usize(1, 3) {
        if t.is_empty() {
            t.push(any(d));
        }
        let i = d.usize(0, t.len() - 1);
        match d.below(4) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, any(d)),
            2 => t[i] = any(d),
            _ => {
                let j = d.usize(0, t.len() - 1);
                t.swap(i, j);
            }
        }
    }
    while t.first() == Some(&Tok::Op("#")) {
        t.remove(0);
    }
    let want = reference(&t);
    let l = layout(d, &t);
    c.input(&show(&l));
    c.note(if want.is_some() { "valid" } else { "invalid" });
    c.nontrivial(t.len() >= 4);
    let p = processed(&l)?;
    let at = find(&t, &p)?;
    match (run(database(), &p), want) {
        (Ok(s), Some(w)) => same_statements(&w, &s, &at),
        (Ok(s), None) => fail!("accepted", "{s:?}"),
        (Err(e), None) => {
            ensure!(!errors(&e).is_empty(), "no report", "rejected without a report");
            Ok(())
        }
        (Err(e), Some(_)) => fail!("rejected", "{:?}", errors(&e)),
    }
}

// ---- compiled scripts ----

#[derive(Clone, Debug, PartialEq)]
struct Loc {
    offset: u32,
    file: String,
    line: u16,
}
#[derive(Clone, Debug, PartialEq)]
enum T {
    Num(u32),
    Str(String),
    Bool(bool),
    Nular(String, Option<Loc>),
    Var(String, Loc),
    /// made by an instruction
    Arr(Vec<T>, Loc),
    /// one that every run of the instruction shares
    Const(Vec<T>),
    /// statements, offset and length of the source
    Code(Vec<TS>, u32, u32),
    Un(String, Box<T>, Loc),
    Bin(String, Box<T>, Box<T>, Loc),
}
#[derive(Clone, Debug, PartialEq)]
enum TS {
    Expr(T),
    Assign(bool, String, T, Loc),
}
struct Reader<'a> {
    b: &'a [u8],
    i: usize,
}
type Read<T> = Result<T, String>;
impl Reader<'_> {
    fn take(&mut self, n: usize) -> Read<&[u8]> {
        let i = self.i;
        self.i += n;
        self.b.get(i..i + n).ok_or_else(|| format!("ends at {}", self.b.len()))
    }
    fn int(&mut self, n: usize) -> Read<u64> {
        Ok(self.take(n)?.iter().rev().fold(0, |a, b| a << 8 | u64::from(*b)))
    }
    fn string(&mut self) -> Read<String> {
        let n = self.int(3)? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    fn tag(&mut self, want: u64) -> Read<()> {
        match self.int(1)? {
            x if x == want => Ok(()),
            x => Err(format!("tag {x} instead of {want}")),
        }
    }
    fn compressed(&mut self) -> Read<Vec<u8>> {
        let n = self.int(4)? as usize;
        self.tag(2)?;
        let (v, used) = vpc::lzo::decode_prefix(self.b.get(self.i..).unwrap_or(&[]), n).map_err(|e| format!("{e:?}"))?;
        self.i += used;
        if v.len() == n { Ok(v) } else { Err("length".into()) }
    }
    fn constant(&mut self) -> Read<Raw> {
        Ok(match self.int(1)? {
            0 => {
                let (a, b) = (self.int(4)?, self.int(4)?);
                let pointer = if b & 0x8000_0000 != 0 { Ok((a as u32, (b & 0x7FFF_FFFF) as u32)) } else { Err(a | b << 32) };
                let n = self.int(4)?;
                let mut v = vec![];
                for _ in 0..n {
                    let op = self.int(1)? as u8;
                    let loc = if op < 2 { (0, 0, 0) } else { (self.int(4)? as u32, self.int(1)? as usize, self.int(2)? as u16) };
                    v.push((op, if op == 0 { 0 } else { self.int(2)? as usize }, loc));
                }
                Raw::Code(pointer, v)
            }
            1 => Raw::Str(self.string()?),
            2 => Raw::Num(self.int(4)? as u32),
            3 => Raw::Bool(match self.int(1)? {
                0 => false,
                1 => true,
                x => return Err(format!("bool {x}")),
            }),
            4 => {
                let n = self.int(4)?;
                Raw::Arr((0..n).map(|_| self.constant()).collect::<Read<_>>()?)
            }
            5 => Raw::Nular(self.string()?),
            x => return Err(format!("constant {x}")),
        })
    }
}
#[derive(Debug)]
enum Raw {
    Code(Result<(u32, u32), u64>, Vec<(u8, usize, (u32, usize, u16))>),
    Str(String),
    Num(u32),
    Bool(bool),
    Arr(Vec<Raw>),
    Nular(String),
}
struct Script {
    names: Vec<String>,
    constants: Vec<Raw>,
    files: Vec<String>,
    entry: usize,
}
fn decode(b: &[u8]) -> Read<Script> {
    let mut r = Reader { b, i: 0 };
    if r.int(4)? != 1 {
        return Err("version".into());
    }
    r.tag(5)?;
    let b = r.compressed()?;
    let mut n = Reader { b: &b, i: 0 };
    let names = (0..n.int(2)?).map(|_| n.string()).collect::<Read<Vec<_>>>()?;
    if n.i != b.len() {
        return Err("names".into());
    }
    r.tag(1)?;
    let b = r.compressed()?;
    let mut n = Reader { b: &b, i: 0 };
    let constants = (0..n.int(2)?).map(|_| n.constant()).collect::<Read<Vec<_>>>()?;
    if n.i != b.len() {
        return Err("constants".into());
    }
    r.tag(2)?;
    let files = (0..r.int(2)?).map(|_| r.string()).collect::<Read<Vec<_>>>()?;
    r.tag(3)?;
    let entry = r.int(8)? as usize;
    if r.i != r.b.len() {
        return Err("trailing".into());
    }
    Ok(Script { names, constants, files, entry })
}
impl Script {
    fn root(&self, source: &str) -> Read<Vec<TS>> {
        let Some(Raw::Code(Err(n), code)) = self.constants.get(self.entry) else {
            return Err("entry point".into());
        };
        match self.constants.get(*n as usize) {
            Some(Raw::Str(s)) if s == source => {}
            x => return Err(format!("source {x:?}")),
        }
        self.run(code)
    }
    fn loc(&self, l: (u32, usize, u16)) -> Read<Loc> {
        Ok(Loc { offset: l.0, file: self.files.get(l.1).ok_or("file")?.clone(), line: l.2 })
    }
    fn value(&self, r: &Raw) -> Read<T> {
        Ok(match r {
            Raw::Code(Ok((a, b)), v) => T::Code(self.run(v)?, *a, *b),
            Raw::Code(Err(_), _) => return Err("code without source".into()),
            Raw::Str(s) => T::Str(s.clone()),
            Raw::Num(n) => T::Num(*n),
            Raw::Bool(b) => T::Bool(*b),
            Raw::Arr(v) => T::Const(v.iter().map(|r| self.value(r)).collect::<Read<_>>()?),
            Raw::Nular(s) => T::Nular(s.clone(), None),
        })
    }
    /// What the instructions of the virtual machine compute
    fn run(&self, code: &[(u8, usize, (u32, usize, u16))]) -> Read<Vec<TS>> {
        let mut out = vec![];
        let mut stack: Vec<T> = vec![];
        let mut open = false;
        let flush = |open: bool, stack: &mut Vec<T>, out: &mut Vec<TS>| match (open, stack.len()) {
            (true, 1) => {
                out.push(TS::Expr(stack.remove(0)));
                Ok(())
            }
            (false, 0) => Ok(()),
            (_, n) => Err(format!("{n} values at the end of a statement")),
        };
        for (op, x, l) in code {
            if *op == 0 {
                flush(open, &mut stack, &mut out)?;
                open = true;
                continue;
            }
            if !open {
                return Err("instruction outside of a statement".into());
            }
            if *op == 1 {
                stack.push(self.value(self.constants.get(*x).ok_or("constant")?)?);
                continue;
            }
            let loc = self.loc(*l)?;
            if *op == 8 {
                let at = stack.len().checked_sub(*x).ok_or("stack")?;
                let v = stack.split_off(at);
                stack.push(T::Arr(v, loc));
                continue;
            }
            let name = self.names.get(*x).ok_or("name")?.clone();
            if name.chars().any(|c| c.is_uppercase()) {
                return Err(format!("name {name}"));
            }
            let mut pop = || stack.pop().ok_or("stack");
            match op {
                2 => {
                    let a = pop()?;
                    stack.push(T::Un(name, Box::new(a), loc));
                }
                3 => {
                    let b = pop()?;
                    let a = pop()?;
                    stack.push(T::Bin(name, Box::new(a), Box::new(b), loc));
                }
                4 => stack.push(T::Nular(name, Some(loc))),
                5 | 6 => {
                    let a = pop()?;
                    if !stack.is_empty() {
                        return Err("stack at an assignment".into());
                    }
                    out.push(TS::Assign(*op == 6, name, a, loc));
                    open = false;
                }
                7 => stack.push(T::Var(name, loc)),
                x => return Err(format!("instruction {x}")),
            }
        }
        flush(open, &mut stack, &mut out)?;
        Ok(out)
    }
}

/// The program as it should be, with positions
struct Model<'a> {
    l: &'a Layout,
    at: &'a [(usize, usize)],
    t: &'a [Tok],
}
impl Model<'_> {
    fn loc(&self, i: usize) -> Loc {
        let (f, line) = self.l.places[i];
        Loc { offset: self.at[i].0 as u32, file: format!("/{}", self.l.files[f].0), line: line as u16 }
    }
    fn statements(&self, v: &[S]) -> Vec<TS> {
        v.iter()
            .map(|s| match s {
                S::Expr(e) => TS::Expr(self.value(e)),
                S::Assign(l, n, e, i) => TS::Assign(*l, n.to_lowercase(), self.value(e), self.loc(*i)),
            })
            .collect()
    }
    fn value(&self, e: &E) -> T {
        match e {
            E::Num(n) => T::Num(*n),
            E::Str(s) => T::Str(s.clone()),
            E::Bool(b) => T::Bool(*b),
            E::Nular(n, i) => T::Nular(n.to_lowercase(), Some(self.loc(*i))),
            E::Var(n, i) => T::Var(n.to_lowercase(), self.loc(*i)),
            E::Arr(v, i) => T::Arr(v.iter().map(|e| self.value(e)).collect(), self.loc(*i)),
            E::Code(v, a, b) => {
                // without the white space around
                let start = self.at[*a].0;
                let end = if *b > *a { self.at[*b - 1].0 + self.t[*b - 1].text().len() } else { start };
                T::Code(self.statements(v), start as u32, end as u32)
            }
            E::Un(n, e, i) => T::Un(n.to_lowercase(), Box::new(self.value(e)), self.loc(*i)),
            E::Bin(n, a, b, i) => T::Bin(n.to_lowercase(), Box::new(self.value(a)), Box::new(self.value(b)), self.loc(*i)),
        }
    }
}
const CONSTANTS: [&str; 11] = ["nil", "confignull", "controlnull", "diaryrecordnull", "displaynull", "grpnull", "locationnull", "objnull", "scriptnull", "tasknull", "teammembernull"];
fn literal_only(t: &T) -> bool {
    match t {
        T::Num(_) | T::Str(_) | T::Bool(_) | T::Code(..) => true,
        T::Nular(n, _) => CONSTANTS.contains(&n.as_str()),
        T::Arr(v, _) => v.iter().all(literal_only),
        _ => false,
    }
}
/// Does the slice of the source hold these tokens, up to white space and empty statements around them?
fn same_slice(source: &str, a: u32, len: u32, start: u32, end: u32) -> bool {
    let core = |a: usize, b: usize| {
        let s = source.get(a..b)?;
        let noop = |c: char| c.is_whitespace() || c == ';';
        Some((b - s.trim_start_matches(noop).len(), s.trim_matches(noop).len()))
    };
    core(a as usize, a as usize + len as usize).is_some_and(|x| Some(x) == core(start as usize, end as usize))
}
fn compare(got: &T, want: &T, source: &str, exact: bool) -> R {
    let all = |a: &[T], b: &[T]| -> R {
        ensure!(a.len() == b.len(), "array", "{} elements instead of {}", a.len(), b.len());
        a.iter().zip(b).try_for_each(|(a, b)| compare(a, b, source, exact))
    };
    match (got, want) {
        (T::Num(a), T::Num(b)) if a == b => Ok(()),
        (T::Str(a), T::Str(b)) if a == b => Ok(()),
        (T::Bool(a), T::Bool(b)) if a == b => Ok(()),
        (T::Nular(a, l), T::Nular(b, m)) if a == b => {
            if l.is_none() {
                ensure!(CONSTANTS.contains(&a.as_str()), "constant command", "{a}");
            } else if m.is_some() {
                ensure!(l == m, "location", "{l:?} instead of {m:?}");
            }
            Ok(())
        }
        (T::Var(a, l), T::Var(b, m)) if a == b => {
            ensure!(l == m, "location", "{l:?} instead of {m:?} of {a}");
            Ok(())
        }
        (T::Arr(a, l), T::Arr(b, m)) => {
            if exact && !(literal_only(want) && (l.offset, l.line) == (0, 0)) && !b.is_empty() {
                ensure!(l.offset <= m.offset && source.get(l.offset as usize..m.offset as usize).is_some_and(|s| s.trim().is_empty() || s.trim() == "["), "location", "{l:?} instead of {m:?} of an array");
            }
            all(a, b)
        }
        (T::Code(a, x, y), T::Code(b, start, end)) => {
            same_run(a, b, source, exact)?;
            if a.is_empty() {
                ensure!(*y == 0, "code", "{y} bytes of source for nothing");
            } else {
                ensure!(same_slice(source, *x, *y, *start, *end), "code", "source is {:?} instead of {:?}", source.get(*x as usize..(*x + *y) as usize), &source[*start as usize..*end as usize]);
            }
            Ok(())
        }
        (T::Un(a, x, l), T::Un(b, y, m)) if a == b => {
            ensure!(l == m, "location", "{l:?} instead of {m:?} of {a}");
            compare(x, y, source, exact)
        }
        (T::Bin(a, x, p, l), T::Bin(b, y, q, m)) if a == b => {
            ensure!(l == m, "location", "{l:?} instead of {m:?} of {a}");
            compare(x, y, source, exact)?;
            compare(p, q, source, exact)
        }
        _ => Err(Fail::new("code", format!("{got:?}\ninstead of {want:?}"))),
    }
}
fn same_run(got: &[TS], want: &[TS], source: &str, exact: bool) -> R {
    ensure!(got.len() == want.len(), "code", "{} statements instead of {}: {got:?}", got.len(), want.len());
    for (g, w) in got.iter().zip(want) {
        match (g, w) {
            (TS::Expr(g), TS::Expr(w)) => compare(g, w, source, exact)?,
            (TS::Assign(a, n, g, l), TS::Assign(b, m, w, k)) if (a, n) == (b, m) => {
                ensure!(l == k, "location", "{l:?} instead of {k:?} of the assignment to {n}");
                compare(g, w, source, exact)?;
            }
            _ => fail!("code", "{g:?} instead of {w:?}"),
        }
    }
    Ok(())
}

/// What the optimizer may do, done everywhere
fn normal(t: T) -> T {
    let many = |v: Vec<T>| v.into_iter().map(normal).collect::<Vec<_>>();
    let none = || Loc { offset: 0, file: String::new(), line: 0 };
    match t {
        T::Arr(v, _) | T::Const(v) => T::Arr(many(v), none()),
        T::Nular(n, l) => {
            let l = if CONSTANTS.contains(&n.as_str()) { None } else { l };
            T::Nular(n, l)
        }
        T::Code(v, a, b) => T::Code(normal_run(v), a, b),
        T::Un(n, a, l) => {
            let a = normal(*a);
            let float = |f: fn(f32) -> f32| match &a {
                T::Num(x) => Some(f(f32::from_bits(*x))).filter(|x| x.is_finite()).map(|x| T::Num(x.to_bits())),
                _ => None,
            };
            let string = |f: fn(&str) -> String| match &a {
                T::Str(s) if s.is_ascii() => Some(T::Str(f(s))),
                _ => None,
            };
            let folded = match n.as_str() {
                "-" => float(|x| -x),
                "sqrt" => float(f32::sqrt),
                "tolower" | "toloweransi" => string(str::to_ascii_lowercase),
                "toupper" | "toupperansi" => string(str::to_ascii_uppercase),
                // a copy of a new array
                "+" if literal_only(&a) && matches!(a, T::Arr(..)) => Some(a.clone()),
                _ => None,
            };
            folded.unwrap_or_else(|| T::Un(n, Box::new(a), l))
        }
        T::Bin(n, a, b, l) => {
            let this = matches!(&*a, T::Var(n, _) if n == "_this");
            let (a, b) = (normal(*a), normal(*b));
            let folded = match (&a, &b) {
                (T::Num(x), T::Num(y)) => {
                    let (x, y) = (f32::from_bits(*x), f32::from_bits(*y));
                    match n.as_str() {
                        "+" => Some(x + y),
                        "-" => Some(x - y),
                        "*" => Some(x * y),
                        "/" => Some(x / y),
                        "%" | "mod" => Some(x % y),
                        _ => None,
                    }
                    .filter(|x| x.is_finite())
                    .map(|x| T::Num(x.to_bits()))
                }
                (T::Str(x), T::Str(y)) if n == "+" => Some(T::Str(format!("{x}{y}"))),
                (T::Code(..), T::Code(..)) if n == "else" => Some(T::Arr(vec![a.clone(), b.clone()], none())),
                _ if n == "call" && this => Some(T::Un(n.clone(), Box::new(b.clone()), l.clone())),
                _ => None,
            };
            folded.unwrap_or_else(|| T::Bin(n, Box::new(a), Box::new(b), l))
        }
        t => t,
    }
}
fn normal_run(v: Vec<TS>) -> Vec<TS> {
    v.into_iter()
        .map(|s| match s {
            TS::Expr(e) => TS::Expr(normal(e)),
            TS::Assign(l, n, e, i) => TS::Assign(l, n, normal(e), i),
        })
        .collect()
}
/// No script may get hold of an array that is part of the compiled script
fn shared(t: &T, c: &mut Case) -> R {
    let is_array = |t: Option<&T>| matches!(t, Some(T::Const(_) | T::Arr(..)));
    // an element that is an array may be handed out as the default value
    let inner = |t: &T| matches!(t, T::Const(v) if is_array(v.get(1)));
    match t {
        T::Const(_) => fail!("shared array", "{t:?}"),
        T::Arr(v, _) => v.iter().try_for_each(|t| shared(t, c)),
        T::Code(v, ..) => shared_run(v, c),
        T::Un(n, a, _) => match &**a {
            T::Const(v) => {
                c.note("shared constant");
                let safe = match n.as_str() {
                    "+" | "random" | "positioncameratoworld" => true,
                    "param" => !inner(a),
                    "params" => !v.iter().any(inner),
                    _ => false,
                };
                ensure!(safe, "shared array", "{n} of {a:?}");
                inside(v, c)
            }
            a => shared(a, c),
        },
        T::Bin(n, a, b, _) => {
            for (left, t) in [(true, a), (false, b)] {
                match &**t {
                    T::Const(v) => {
                        c.note("shared constant");
                        let safe = match n.as_str() {
                            "vectoradd" | "vectordiff" | "vectorcrossproduct" | "vectordotproduct" => true,
                            "then" => !left && v.iter().all(|t| matches!(t, T::Code(..))),
                            "param" | "getvariable" | "setvariable" | "getordefault" => !left && !inner(t),
                            "params" => !left && !v.iter().any(inner),
                            _ => false,
                        };
                        ensure!(safe, "shared array", "{n} with {t:?}");
                        inside(v, c)?;
                    }
                    t => shared(t, c)?,
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
fn inside(v: &[T], c: &mut Case) -> R {
    v.iter().try_for_each(|t| match t {
        T::Const(v) => inside(v, c),
        t => shared(t, c),
    })
}
fn shared_run(v: &[TS], c: &mut Case) -> R {
    v.iter().try_for_each(|s| match s {
        TS::Expr(e) | TS::Assign(_, _, e, _) => shared(e, c),
    })
}

fn compile(d: &mut D, c: &mut Case) -> R {
    let (t, l, p, s, want) = parsed(d, c)?;
    let at = find(&t, &p)?;
    let mut out = vec![];
    s.compile_to_writer(&p, &mut out).map_err(|e| Fail::new("not compiled", e.to_string()))?;
    let script = decode(&out).map_err(|e| Fail::new("format", e))?;
    let got = script.root(p.as_str()).map_err(|e| Fail::new("format", e))?;
    let m = Model { l: &l, at: &at, t: &t };
    same_run(&got, &m.statements(&want), p.as_str(), true)
}
fn optimize(d: &mut D, c: &mut Case) -> R {
    let (t, l, p, s, want) = parsed(d, c)?;
    let at = find(&t, &p)?;
    let mut out = vec![];
    s.optimize().compile_to_writer(&p, &mut out).map_err(|e| Fail::new("not compiled", e.to_string()))?;
    let script = decode(&out).map_err(|e| Fail::new("format", e))?;
    let got = script.root(p.as_str()).map_err(|e| Fail::new("format", e))?;
    shared_run(&got, c)?;
    let m = Model { l: &l, at: &at, t: &t };
    let before = m.statements(&want);
    let want = normal_run(before.clone());
    c.note_if(want != before, "foldable");
    same_run(&normal_run(got), &want, p.as_str(), false)
}
/// Sizes that the file format has no room for
fn limits(d: &mut D, c: &mut Case) -> R {
    let n = *d.pick(&[65_535, 65_536, 65_537, 70_000]);
    let text = format!("x = [{}]", vec!["0"; n].join(","));
    let fits = n <= 65_535;
    c.input(&format!("{} tokens: {}", n, &text[..20]));
    c.nontrivial(true);
    let l = Layout { files: vec![("main.sqf".into(), text)], places: vec![], offsets: vec![], ends: vec![] };
    let p = processed(&l)?;
    let s = run(database(), &p).map_err(|e| Fail::new("rejected", format!("{:?}", errors(&e))))?;
    let mut out = vec![];
    match s.compile_to_writer(&p, &mut out) {
        Ok(()) => {
            let script = decode(&out).map_err(|e| Fail::new("format", e))?;
            script.root(p.as_str()).map_err(|e| Fail::new("format", e))?;
            Ok(())
        }
        Err(e) => {
            ensure!(!fits, "rejected", "{e}");
            Ok(())
        }
    }
}
type Parsed = (Vec<Tok>, Layout, Processed, Statements, Vec<S>);
fn parsed(d: &mut D, c: &mut Case) -> Result<Parsed, Fail> {
    let t = program(d);
    let want = reference(&t).ok_or_else(|| Fail::new("harness", format!("the reference rejects {t:?}")))?;
    let l = layout(d, &t);
    c.input(&show(&l));
    c.nontrivial(t.len() >= 6);
    let p = processed(&l)?;
    let s = run(database(), &p).map_err(|e| Fail::new("rejected", format!("{:?}", errors(&e))))?;
    Ok((t, l, p, s, want))
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, facets| Property { id, level: "exploration", rule, facets, probes: vec![], assumptions: &["the list of commands is a stand-in for the wiki of the game"] };
    vec![
        p("Q01", "a program with at least two binary operators, or four tokens", vec![Facet::new("parse", 6_000, 300_000, parse), Facet::new("soup", 6_000, 300_000, soup)]),
        p("Q02", "a program of at least six tokens", vec![Facet::new("compile", 6_000, 300_000, compile), Facet::new("optimize", 10_000, 500_000, optimize), Facet::new("limits", 8, 64, limits).hang(120)]),
    ]
}
