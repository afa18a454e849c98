//! The preprocessor: macro programs with a reference expansion, faults, arbitrary text.
use crate::ws;
use std::collections::HashMap;
use std::rc::Rc;
use vpc::{ensure, fail, Case, Facet, Fail, Property, D, R};

const MACROS: &[&str] = &["A", "FOO", "foo", "FOO_1", "B", "BAR", "_p", "x", "GVAR", "Q2", "Foo", "é1"];
const PARAMS: &[&str] = &["x", "y", "var1", "A", "FOO", "_0"];
const WORDS: &[&str] = &["class", "alpha", "fo", "FOO_", "BARR", "value", "xs", "__LINE", "define"];

#[derive(Clone, Debug)]
enum Pc {
    /// Punctuation and digits
    P(String),
    /// A string, with its quotes
    S(String),
    N(String, usize),
    C(String, usize, Vec<Vec<Pc>>),
    /// `#parameter`
    H(String),
    J,
    Sp,
    Cont,
    Nl,
    Cm(String),
}
#[derive(Clone, Debug)]
enum Arg {
    Num(String),
    Word(String),
    Mac(String),
}
#[derive(Clone, Debug)]
enum Test {
    Def(String),
    NDef(String),
    One(String),
    Cmp(Arg, &'static str, Arg),
}
#[derive(Clone, Debug)]
enum Node {
    Line(Vec<Pc>),
    Def(String, Option<Vec<String>>, Option<Vec<Pc>>),
    Undef(String),
    Cond(Test, Vec<Node>, Option<Vec<Node>>),
    Inc(usize),
    Raw(String),
    Blank,
}
#[derive(Clone, Debug)]
struct File {
    path: String,
    nodes: Vec<Node>,
    /// the file does not end in a line break
    open: bool,
    styles: u64,
}

#[derive(Clone, Debug)]
enum Def {
    Unit,
    Value(Vec<Pc>),
    Func(Vec<String>, Vec<Pc>),
}

// ---- printing: fills in the line numbers

struct Pr {
    s: String,
    line: usize,
    style: u64,
}
impl Pr {
    fn put(&mut self, t: &str) {
        self.line += t.matches('\n').count();
        self.s.push_str(t);
    }
    fn pick(&mut self, n: u64) -> u64 {
        // layout choices that do not matter
        self.style = self.style.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        (self.style >> 33) % n
    }
    fn gap(&mut self) {
        let g = [" ", " ", "  ", "\t", " /* c */ "][self.pick(5) as usize];
        self.put(g);
    }
    fn end(&mut self) {
        let e = ["\n", "\n", "\n", " \n", " // note\n", "\t/* c */\n", "\n\n"][self.pick(7) as usize];
        self.put(e);
    }
    fn pcs(&mut self, v: &mut [Pc]) {
        for p in v {
            match p {
                Pc::P(s) | Pc::S(s) => self.put(&s.clone()),
                Pc::N(n, l) => {
                    *l = self.line;
                    self.put(&n.clone());
                }
                Pc::C(n, l, a) => {
                    *l = self.line;
                    self.put(&n.clone());
                    self.put("(");
                    for (i, x) in a.iter_mut().enumerate() {
                        if i > 0 {
                            self.put(",");
                        }
                        self.pcs(x);
                    }
                    self.put(")");
                }
                Pc::H(n) => {
                    self.put("#");
                    self.put(&n.clone());
                }
                Pc::J => self.put("##"),
                Pc::Sp => self.put(" "),
                Pc::Cont => self.put("\\\n"),
                Pc::Nl => self.put("\n"),
                Pc::Cm(s) => {
                    let t = format!("/*{s}*/");
                    self.put(&t);
                }
            }
        }
    }
    fn arg(a: &Arg) -> &str {
        match a {
            Arg::Num(s) | Arg::Word(s) | Arg::Mac(s) => s,
        }
    }
    fn indent(&mut self) {
        let t = ["", "", "    ", "\t", "/* i */"][self.pick(5) as usize];
        self.put(t);
    }
    fn nodes(&mut self, v: &mut [Node], files: &[String], here: &str) {
        for n in v {
            if !matches!(n, Node::Raw(_) | Node::Line(_)) {
                self.indent();
            }
            match n {
                Node::Line(p) => {
                    if self.pick(4) == 0 {
                        self.put("    ");
                    }
                    self.pcs(p);
                    let e = ["\n", "\n", "\n", " \n", "// note\n", "\n\n"][self.pick(6) as usize];
                    self.put(e);
                }
                Node::Raw(s) => {
                    self.put(&s.clone());
                    self.put("\n");
                }
                Node::Blank => self.end(),
                Node::Def(name, params, body) => {
                    self.put("#define");
                    self.gap();
                    self.put(&name.clone());
                    if let Some(p) = params {
                        let sep = [",", ", ", " , "][self.pick(3) as usize];
                        self.put(&format!("({})", p.join(sep)));
                        if self.pick(3) > 0 {
                            self.gap();
                        }
                    } else if body.is_some() {
                        self.gap();
                    }
                    if let Some(b) = body {
                        self.pcs(b);
                        // the space before a comment is part of the body
                        let e = ["\n", "\n", "// note\n", "/* c */\n", "\n\n"][self.pick(5) as usize];
                        self.put(e);
                    } else {
                        self.put("\n");
                    }
                }
                Node::Undef(name) => {
                    self.put("#undef");
                    self.gap();
                    self.put(&name.clone());
                    self.end();
                }
                Node::Inc(f) => {
                    self.put("#include");
                    self.gap();
                    let target = files[*f].clone();
                    let dir = |p: &str| p.rsplit_once('/').map_or(String::new(), |x| x.0.to_string());
                    let name = target.rsplit('/').next().unwrap_or("").to_string();
                    let p = if dir(here) == dir(&target) && self.pick(2) == 0 {
                        name
                    } else if self.pick(3) == 0 {
                        // up to the root and down again, or down
                        let up = format!("{}/", dir(here));
                        let p = match target.strip_prefix(&up) {
                            Some(rest) => rest.to_string(),
                            None => format!("{}{target}", "../".repeat(if here.contains('/') { here.matches('/').count() } else { 0 })),
                        };
                        if self.pick(2) == 0 { p } else { p.replace('/', "\\") }
                    } else if self.pick(2) == 0 {
                        format!("/{target}")
                    } else {
                        format!("\\{}", target.replace('/', "\\"))
                    };
                    let t = if self.pick(3) == 0 { format!("<{p}>") } else { format!("\"{p}\"") };
                    self.put(&t);
                    self.end();
                }
                Node::Cond(t, a, b) => {
                    match t {
                        Test::Def(n) => {
                            self.put("#ifdef");
                            self.gap();
                            self.put(&n.clone());
                        }
                        Test::NDef(n) => {
                            self.put("#ifndef");
                            self.gap();
                            self.put(&n.clone());
                        }
                        Test::One(n) => {
                            self.put("#if");
                            self.gap();
                            self.put(&n.clone());
                        }
                        Test::Cmp(l, op, r) => {
                            self.put("#if");
                            self.gap();
                            self.put(Self::arg(l));
                            self.gap();
                            self.put(op);
                            self.gap();
                            self.put(Self::arg(r));
                        }
                    }
                    if matches!(t, Test::One(_)) {
                        self.put("\n");
                    } else {
                        self.end();
                    }
                    self.nodes(a, files, here);
                    if let Some(b) = b {
                        self.indent();
                        self.put("#else");
                        self.end();
                        self.nodes(b, files, here);
                    }
                    self.indent();
                    self.put("#endif");
                    self.end();
                }
            }
        }
    }
}

fn print(files: &mut [File]) -> Vec<(String, String)> {
    let paths: Vec<String> = files.iter().map(|f| f.path.clone()).collect();
    files
        .iter_mut()
        .map(|f| {
            let mut p = Pr { s: String::new(), line: 1, style: f.styles };
            p.nodes(&mut f.nodes, &paths, &f.path);
            let mut s = p.s;
            if f.open {
                while s.ends_with('\n') {
                    s.pop();
                }
            }
            (f.path.clone(), s)
        })
        .collect()
}

// ---- reference

#[derive(Clone, Default)]
struct Env {
    params: Option<Rc<HashMap<String, String>>>,
    active: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
struct Chunk {
    text: String,
    file: usize,
    line: usize,
    /// the name of the macro this is the expansion of
    call: Option<String>,
}
#[derive(Clone, Default)]
struct Ref {
    defs: HashMap<String, Def>,
    counter: u32,
    paths: Vec<String>,
    out: Vec<Chunk>,
    file: usize,
    site: Option<(usize, usize, String)>,
    expansions: usize,
    nested: usize,
    skipped: usize,
    includes: usize,
    size: usize,
    redefined: Vec<(usize, String)>,
}
/// The program is not one the reference describes.
struct Bad;
type E<T> = Result<T, Bad>;

const GEN: &[&str] = &["__COUNTER__", "__COUNTER_RESET__", "__FILE__", "__FILE_NAME__", "__FILE_SHORT__", "__LINE__", "__ARMA__", "__ARMA3__"];

impl Ref {
    fn defined(&self, n: &str) -> bool {
        GEN.contains(&n) || self.defs.contains_key(n)
    }
    fn grow(&mut self, n: usize) -> E<()> {
        self.size += n;
        if self.size > 60_000 {
            Err(Bad)
        } else {
            Ok(())
        }
    }
    fn builtin(&mut self, w: &str, line: usize) -> String {
        let (file, line) = self.site.as_ref().map_or((self.file, line), |s| (s.0, s.1));
        let path = &self.paths[file];
        let name = path.rsplit('/').next().unwrap_or("");
        match w {
            "__COUNTER__" => {
                self.counter += 1;
                (self.counter - 1).to_string()
            }
            "__COUNTER_RESET__" => {
                self.counter = 0;
                String::new()
            }
            "__FILE__" => format!("\"\\{}\"", path.replace('/', "\\")),
            "__FILE_NAME__" => name.to_string(),
            "__FILE_SHORT__" => name.rsplit_once('.').map_or("", |x| x.0).to_string(),
            "__LINE__" => line.to_string(),
            _ => "1".to_string(),
        }
    }
    /// `None`: a plain word
    fn expandable(&self, w: &str, env: &Env) -> bool {
        if GEN.contains(&w) || env.params.as_ref().is_some_and(|p| p.contains_key(w)) {
            return true;
        }
        self.defs.contains_key(w) && !env.active.iter().any(|a| a == w)
    }
    fn at<T>(&mut self, w: &str, line: usize, f: impl FnOnce(&mut Self) -> E<T>) -> E<T> {
        let outer = self.site.is_none();
        if outer {
            self.site = Some((self.file, line, w.to_string()));
        } else {
            self.nested += 1;
        }
        self.expansions += 1;
        let r = f(self);
        if outer {
            self.site = None;
        }
        r
    }
    fn name(&mut self, w: &str, line: usize, env: &Env) -> E<String> {
        if !self.expandable(w, env) {
            return Ok(w.to_string());
        }
        if GEN.contains(&w) {
            return self.at(w, line, |s| Ok(s.builtin(w, line)));
        }
        if let Some(v) = env.params.as_ref().and_then(|p| p.get(w)) {
            self.grow(v.len())?;
            return Ok(v.clone());
        }
        match self.defs.get(w).cloned() {
            Some(Def::Value(body)) => self.at(w, line, |s| {
                let mut env = env.clone();
                env.active.push(w.to_string());
                s.walk(&body, &env, false, true)
            }),
            _ => Err(Bad),
        }
    }
    fn call(&mut self, w: &str, line: usize, args: &[Vec<Pc>], env: &Env, in_arg: bool, body: bool) -> E<String> {
        let func = match self.defs.get(w) {
            Some(Def::Func(p, b)) if self.expandable(w, env) && !env.params.as_ref().is_some_and(|p| p.contains_key(w)) => Some((p.clone(), b.clone())),
            _ => None,
        };
        let Some((params, fbody)) = func else {
            if in_arg && args.len() > 1 {
                return Err(Bad);
            }
            let mut s = self.name(w, line, env)?;
            s.push('(');
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(&self.walk(a, env, in_arg, body)?);
            }
            s.push(')');
            return Ok(s);
        };
        self.at(w, line, |s| {
            let mut vals = Vec::new();
            for a in args {
                vals.push(s.walk(a, env, true, body)?);
            }
            if vals.len() == 1 && vals[0].is_empty() {
                if !args[0].is_empty() {
                    return Err(Bad);
                }
                vals.clear();
            }
            if vals.len() != params.len() {
                return Err(Bad);
            }
            let mut env = env.clone();
            env.params = Some(Rc::new(params.iter().cloned().zip(vals).collect()));
            env.active.push(w.to_string());
            s.walk(&fbody, &env, false, true)
        })
    }
    fn walk(&mut self, pcs: &[Pc], env: &Env, in_arg: bool, body: bool) -> E<String> {
        let mut out = String::new();
        for p in pcs {
            let t = self.piece(p, env, in_arg, body)?;
            self.grow(t.len())?;
            out.push_str(&t);
        }
        Ok(out)
    }
    fn piece(&mut self, p: &Pc, env: &Env, in_arg: bool, body: bool) -> E<String> {
        Ok(match p {
            Pc::P(s) | Pc::S(s) => s.clone(),
            Pc::N(w, l) => self.name(w, *l, env)?,
            Pc::C(w, l, a) => self.call(w, *l, a, env, in_arg, body)?,
            Pc::H(w) => {
                if in_arg {
                    return Err(Bad);
                }
                match env.params.as_ref().and_then(|p| p.get(w)) {
                    Some(v) => format!("\"{v}\""),
                    None => return Err(Bad),
                }
            }
            Pc::J | Pc::Cm(_) => String::new(),
            Pc::Sp => " ".into(),
            Pc::Cont => if body { "\n" } else { "" }.into(),
            Pc::Nl => "\n".into(),
        })
    }
    fn operand(&mut self, a: &Arg) -> E<String> {
        Ok(match a {
            Arg::Num(s) => s.clone(),
            Arg::Word(s) => {
                if self.defined(s) {
                    return Err(Bad);
                }
                s.clone()
            }
            Arg::Mac(s) => match self.defs.get(s) {
                Some(Def::Value(b)) => {
                    let mut t = String::new();
                    for p in b {
                        match p {
                            Pc::P(s) | Pc::N(s, _) => t.push_str(s),
                            Pc::Sp => t.push(' '),
                            Pc::Cm(_) => {}
                            _ => return Err(Bad),
                        }
                    }
                    let t = t.trim().to_string();
                    if t.is_empty() {
                        return Err(Bad);
                    }
                    t
                }
                _ => return Err(Bad),
            },
        })
    }
    fn test(&mut self, t: &Test) -> E<bool> {
        Ok(match t {
            Test::Def(n) => self.defined(n),
            Test::NDef(n) => !self.defined(n),
            Test::One(n) => self.operand(&Arg::Mac(n.clone()))? == "1",
            Test::Cmp(l, op, r) => {
                let (l, r) = (self.operand(l)?, self.operand(r)?);
                if *op == "==" || *op == "!=" {
                    return Ok((l == r) == (*op == "=="));
                }
                let (Ok(l), Ok(r)) = (l.parse::<f64>(), r.parse::<f64>()) else { return Err(Bad) };
                match *op {
                    "<" => l < r,
                    "<=" => l <= r,
                    ">" => l > r,
                    _ => l >= r,
                }
            }
        })
    }
    fn emit(&mut self, text: String, line: usize, call: Option<String>) {
        let file = self.file;
        self.out.push(Chunk { text, file, line, call });
    }
    fn node(&mut self, n: &Node, files: &[File]) -> E<()> {
        match n {
            Node::Blank => {}
            Node::Raw(_) => return Err(Bad),
            Node::Line(pcs) => {
                let env = Env::default();
                for p in pcs {
                    let expands = match p {
                        Pc::N(w, l) | Pc::C(w, l, _) => Some((w.clone(), *l, self.expandable(w, &env))),
                        _ => None,
                    };
                    let t = self.piece(p, &env, false, false)?;
                    self.grow(t.len())?;
                    match (p, expands) {
                        // only the name of a plain call and what follows the value of a macro is outside
                        (Pc::C(w, l, args), Some((_, _, e))) if !matches!(self.defs.get(w), Some(Def::Func(..))) => {
                            if e || args.iter().flatten().any(|p| !matches!(p, Pc::P(_) | Pc::Sp)) {
                                // positions inside are not tracked
                                self.emit(t, 0, None);
                            } else {
                                self.emit(t, *l, None);
                            }
                        }
                        (_, Some((w, l, true))) => self.emit(t, l, Some(w)),
                        (_, Some((_, l, false))) => self.emit(t, l, None),
                        _ => self.emit(t, 0, None),
                    }
                }
                self.emit("\n".into(), 0, None);
            }
            Node::Def(n, p, b) => {
                if self.defs.contains_key(n) {
                    self.redefined.push((self.file, n.clone()));
                }
                let d = match (p, b) {
                    (Some(p), b) => Def::Func(p.clone(), b.clone().unwrap_or_default()),
                    (None, Some(b)) => Def::Value(b.clone()),
                    (None, None) => Def::Unit,
                };
                self.defs.insert(n.clone(), d);
            }
            Node::Undef(n) => {
                self.defs.remove(n);
            }
            Node::Cond(t, a, b) => {
                let take = self.test(t)?;
                self.skipped += usize::from(!take || b.is_some());
                let empty = Vec::new();
                for n in if take { a } else { b.as_ref().unwrap_or(&empty) } {
                    self.node(n, files)?;
                }
            }
            Node::Inc(f) => {
                self.includes += 1;
                self.grow(100)?;
                let back = self.file;
                self.file = *f;
                for n in &files[*f].nodes {
                    self.node(n, files)?;
                }
                self.emit("\n".into(), 0, None);
                self.file = back;
            }
        }
        Ok(())
    }
}

// ---- generation

#[derive(Clone, Copy, PartialEq)]
enum Place {
    Line,
    Body,
    /// arguments written in a body, or in a line
    Arg(bool),
}

struct Gen<'a> {
    d: &'a mut D,
    st: Ref,
    files: Vec<File>,
    marks: usize,
    /// how likely directives are
    control: u64,
    rejected: usize,
    funcs: HashMap<String, usize>,
}

impl Gen<'_> {
    fn mark(&mut self) -> Pc {
        self.marks += 1;
        Pc::N(format!("mk{}z", self.marks), 0)
    }
    fn string(&mut self, plain: bool) -> String {
        let n = self.d.usize(0, 3);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push(' ');
            }
            let w = match self.d.weighted(&[3, 2, 2, 1, u64::from(plain)]) {
                4 => "it's".to_string(),
                0 => (*self.d.pick(MACROS)).to_string(),
                1 => (*self.d.pick(&[",", "(", ")", "a,b", "F(1,2)", "//", "/* c */", "/*", "*/", "\\", "é", "😀", "𝒳漢", "#x", "#define A 1"])).to_string(),
                2 => (*self.d.pick(PARAMS)).to_string(),
                _ => (*self.d.pick(GEN)).to_string(),
            };
            s.push_str(&w);
        }
        format!("\"{s}\"")
    }
    fn args(&mut self, n: usize, params: &[String], in_body: bool, depth: u32) -> Vec<Vec<Pc>> {
        let mut v: Vec<Vec<Pc>> = Vec::new();
        for _ in 0..n {
            let k = self.d.weighted(&[1, 6, 3, 1]);
            v.push(self.pcs(k, params, Place::Arg(in_body), depth.saturating_sub(1)));
        }
        v
    }
    fn pcs(&mut self, n: usize, params: &[String], place: Place, depth: u32) -> Vec<Pc> {
        let mut v: Vec<Pc> = Vec::new();
        let in_arg = matches!(place, Place::Arg(_));
        for _ in 0..n {
            let name = if !params.is_empty() && self.d.chance(3, 5) {
                self.d.pick(params).clone()
            } else {
                match self.d.weighted(&[6, 2, 2]) {
                    0 => (*self.d.pick(MACROS)).to_string(),
                    1 => (*self.d.pick(WORDS)).to_string(),
                    _ => (*self.d.pick(GEN)).to_string(),
                }
            };
            let p = match self.d.weighted(&[
                6,
                if depth == 0 { 0 } else if self.funcs.is_empty() { 3 } else { 14 },
                4,
                2,
                if place == Place::Body && !params.is_empty() { 3 } else { 0 },
                if in_arg { 0 } else { 2 },
                u64::from(!in_arg || place == Place::Arg(true)),
                u64::from(place == Place::Arg(false)),
                1,
                1,
            ]) {
                0 => Pc::N(name, 0),
                1 => {
                    let fs: Vec<String> = {
                        let mut f: Vec<String> = self.funcs.keys().cloned().collect();
                        f.sort();
                        f
                    };
                    let (name, n) = if !fs.is_empty() && self.d.chance(9, 10) {
                        let f = self.d.pick(&fs).clone();
                        let n = self.funcs[&f];
                        (f, n)
                    } else {
                        let n = self.d.usize(0, 3);
                        (name, n)
                    };
                    let in_body = place == Place::Body || place == Place::Arg(true);
                    let a = self.args(n, params, in_body, depth);
                    Pc::C(name, 0, a)
                }
                2 => Pc::P((*self.d.pick(&["+", "-", "1", "42", ";", "{", "}", "=", "[", "]", ".5", "(1)", ":", "€", "<", ">", "*", "%", "5/2"])).to_string()),
                3 => Pc::S(self.string(place == Place::Line)),
                4 => Pc::H(self.d.pick(params).clone()),
                5 => Pc::J,
                6 => Pc::Cont,
                7 => Pc::Nl,
                8 => Pc::Cm((*self.d.pick(&[" c ", "", " A ", "\"", " #define A 2 ", "'", " , ) "])).to_string()),
                _ => {
                    if in_arg {
                        Pc::P("'q'".into())
                    } else {
                        // a directive is only one at the start of a line
                        let within = place == Place::Line && v.rsplit(|p| matches!(p, Pc::Cont)).next().unwrap_or(&[]).iter().any(|p| matches!(p, Pc::P(_) | Pc::S(_) | Pc::N(..)));
                        let n = if within { 8 } else { 4 };
                        Pc::P((*self.d.pick(&[",", "# 1", "'a'", ", ", "#define q7 1 ", "#else ", "#endif ", "#include q7 "][..n])).to_string())
                    }
                }
            };
            // keep tokens apart unless they are joined
            let word = |p: &Pc| matches!(p, Pc::N(..) | Pc::C(..)) || matches!(p, Pc::P(s) if s.starts_with(|c: char| c.is_ascii_digit() || c == '.' || c == '('));
            let apart = match (v.last(), &p) {
                (Some(Pc::N(..)), q) => word(q) || matches!(q, Pc::P(s) if s.starts_with('\'')) || matches!(q, Pc::S(_)),
                (Some(Pc::H(_)), q) => word(q) || matches!(q, Pc::H(_)),
                (Some(Pc::P(a)), Pc::P(_)) => !a.ends_with(' '),
                (Some(Pc::P(a)), Pc::N(..) | Pc::C(..) | Pc::H(_)) => a.ends_with(|c: char| c.is_ascii_digit() || c == '#'),
                // a name, a comment and an opening parenthesis is not a call
                (Some(Pc::Cm(_)), q) => word(q),
                (Some(Pc::S(_)), Pc::S(_)) => true,
                (Some(Pc::J), Pc::J | Pc::H(_)) => true,
                (Some(Pc::P(a)), Pc::J) => a.ends_with('#'),
                (Some(Pc::Sp | Pc::Cont), Pc::P(s)) if s.starts_with('#') => false,
                _ => false,
            };
            if apart || (!v.is_empty() && !in_arg && self.d.chance(1, 4)) {
                v.push(Pc::Sp);
            }
            v.push(p);
        }
        // a join needs something on both sides
        while matches!(v.last(), Some(Pc::J | Pc::Cont)) {
            v.pop();
        }
        while matches!(v.first(), Some(Pc::J | Pc::Cont)) {
            v.remove(0);
        }
        if matches!(place, Place::Line | Place::Body) {
            while matches!(v.first(), Some(Pc::Sp | Pc::Cm(_))) {
                v.remove(0);
            }
        }
        v
    }
    fn raw(&mut self) -> Node {
        Node::Raw(
            (*self.d.pick(&[
                "#include \"missing.hpp\"",
                "#unknown",
                "#define A(",
                "#define __LINE__ 1",
                "    #undef",
                "A(1,2,3,4) x",
                "#if",
                "#endif",
                "#pragma hemtt nothing",
                "#include",
                "FOO(",
                "__EXEC(x)",
                "\"unfinished",
                "# 1",
                "#ifdef A",
            ]))
            .to_string(),
        )
    }
    /// Anything that keeps the conditions balanced.
    fn skipped(&mut self, depth: u32) -> Vec<Node> {
        let n = self.d.usize(0, 3);
        let mut v = Vec::new();
        for _ in 0..n {
            match self.d.weighted(&[3, 3, if depth > 0 { 3 } else { 0 }, 2]) {
                0 => {
                    let r = loop {
                        let r = self.raw();
                        if let Node::Raw(s) = &r {
                            // quotes are read everywhere
                            if !["#if", "#endif", "#ifdef A", "\"unfinished"].contains(&s.as_str()) {
                                break r;
                            }
                        }
                    };
                    v.push(r);
                }
                1 => {
                    let name = (*self.d.pick(MACROS)).to_string();
                    v.push(if self.d.bool() { Node::Undef(name) } else { Node::Def(name, None, Some(vec![Pc::P("99".into())])) });
                }
                2 => {
                    let a = self.skipped(depth - 1);
                    let b = if self.d.bool() { Some(self.skipped(depth - 1)) } else { None };
                    let n = (*self.d.pick(MACROS)).to_string();
                    let t = match self.d.below(3) {
                        0 => Test::Def(n),
                        1 => Test::NDef(n),
                        _ => Test::Cmp(Arg::Mac(n), "==", Arg::Num("1".into())),
                    };
                    v.push(Node::Cond(t, a, b));
                }
                _ => {
                    let m = self.mark();
                    v.push(Node::Line(vec![m]));
                }
            }
        }
        v
    }
    fn try_node(&mut self, n: Node, into: &mut Vec<Node>) {
        let mut st = self.st.clone();
        st.out.clear();
        if st.node(&n, &self.files).is_ok() {
            if let Node::Def(name, p, _) = &n {
                self.funcs.remove(name);
                if let Some(p) = p {
                    self.funcs.insert(name.clone(), p.len());
                }
            }
            if matches!(n, Node::Inc(_)) {
                self.funcs = st.defs.iter().filter_map(|(k, v)| if let Def::Func(p, _) = v { Some((k.clone(), p.len())) } else { None }).collect();
            }
            if let Node::Undef(name) = &n {
                self.funcs.remove(name);
            }
            self.st = st;
            into.push(n);
        } else {
            self.rejected += 1;
        }
    }
    fn define(&mut self) -> Node {
        let name = (*self.d.pick(MACROS)).to_string();
        match self.d.weighted(&[5, 4, 1, 2]) {
            0 => {
                let mut params: Vec<String> = Vec::new();
                let many = self.d.chance(1, 16);
                let (least, most) = if many { (6, 24) } else { (0, 3) };
                for i in 0..self.d.usize(least, most) {
                    let p = if many { format!("p{i}") } else { (*self.d.pick(PARAMS)).to_string() };
                    if p != name && !params.contains(&p) {
                        params.push(p);
                    }
                }
                let n = self.d.usize(0, 4);
                let mut b = self.pcs(n, &params, Place::Body, 2);
                if self.d.chance(1, 4) {
                    if !b.is_empty() {
                        b.push(Pc::Sp);
                    }
                    let m = self.mark();
                    b.push(m);
                }
                Node::Def(name, Some(params), Some(b))
            }
            1 => {
                let n = self.d.usize(1, 3);
                let b = self.pcs(n, &[], Place::Body, 2);
                if b.is_empty() {
                    return Node::Def(name, None, None);
                }
                Node::Def(name, None, Some(b))
            }
            2 => Node::Def(name, None, None),
            _ => {
                let v = (*self.d.pick(&["0", "1", "2", "10", "1.5", "16777216", "16777217", "0.10", "abc"])).to_string();
                let mut b = vec![if v == "abc" { Pc::N(v, 0) } else { Pc::P(v) }];
                // comments around a value are not part of it
                if self.d.chance(1, 5) {
                    b.insert(0, Pc::Cm(" c ".into()));
                }
                if self.d.chance(1, 5) {
                    b.push(Pc::Sp);
                    b.push(Pc::Cm(" 2 ".into()));
                }
                Node::Def(name, None, Some(b))
            }
        }
    }
    fn test(&mut self) -> Test {
        let mut vals: Vec<String> = self.st.defs.iter().filter(|(_, v)| matches!(v, Def::Value(_))).map(|(k, _)| k.clone()).collect();
        vals.sort();
        let name = (*self.d.pick(MACROS)).to_string();
        match self.d.weighted(&[4, 4, if vals.is_empty() { 0 } else { 3 }, 5]) {
            0 => Test::Def(if self.d.chance(1, 8) { (*self.d.pick(GEN)).to_string() } else { name }),
            1 => Test::NDef(name),
            2 => Test::One(self.d.pick(&vals).clone()),
            _ => {
                let op = *self.d.pick(&["==", "!=", "<", "<=", ">", ">="]);
                let mut side = || match self.d.weighted(&[3, if vals.is_empty() { 0 } else { 5 }, 1]) {
                    0 => Arg::Num((*self.d.pick(&["0", "1", "2", "10", "1.5", "9", "007", "1.0", "16777216", "16777217", "0.1"])).to_string()),
                    1 => Arg::Mac(self.d.pick(&vals).clone()),
                    _ => Arg::Word((*self.d.pick(&["abc", "Abc", "ab_1"])).to_string()),
                };
                let l = side();
                let r = side();
                Test::Cmp(l, op, r)
            }
        }
    }
    fn nodes(&mut self, n: usize, depth: u32, here: usize) -> Vec<Node> {
        let mut v = Vec::new();
        for _ in 0..n {
            let c = self.control;
            match self.d.weighted(&[6, 6, 1, if depth > 0 { 3 * c } else { 0 }, 2 * c, 1]) {
                0 => {
                    let k = self.d.usize(1, 4);
                    let mut p = self.pcs(k, &[], Place::Line, 3);
                    let m = self.mark();
                    if self.d.bool() {
                        p.insert(0, Pc::Sp);
                        p.insert(0, m);
                    } else {
                        p.push(Pc::Sp);
                        p.push(m);
                    }
                    if matches!(p.first(), Some(Pc::H(_))) {
                        p.remove(0);
                    }
                    self.try_node(Node::Line(p), &mut v);
                }
                1 => {
                    let n = self.define();
                    self.try_node(n, &mut v);
                }
                2 => {
                    let n = Node::Undef((*self.d.pick(MACROS)).to_string());
                    self.try_node(n, &mut v);
                }
                3 => {
                    let t = self.test();
                    let take = {
                        let mut st = self.st.clone();
                        st.test(&t)
                    };
                    let Ok(take) = take else {
                        self.rejected += 1;
                        continue;
                    };
                    self.st.skipped += 1;
                    let k = self.d.usize(0, 3);
                    let has_else = self.d.bool();
                    if take {
                        let a = self.nodes(k, depth - 1, here);
                        let b = if has_else { Some(self.skipped(depth)) } else { None };
                        v.push(Node::Cond(t, a, b));
                    } else {
                        let a = self.skipped(depth);
                        let b = if has_else { Some(self.nodes(k, depth - 1, here)) } else { None };
                        v.push(Node::Cond(t, a, b));
                    }
                }
                4 => {
                    // includes only go forward, so that they end
                    let later: Vec<usize> = (here + 1..self.files.len()).collect();
                    if !later.is_empty() && self.d.chance(2, 3) {
                        let f = *self.d.pick(&later);
                        self.try_node(Node::Inc(f), &mut v);
                    }
                }
                _ => v.push(Node::Blank),
            }
        }
        v
    }
}

pub struct Program {
    files: Vec<(String, String)>,
    expect: Ref,
    rejected: usize,
    marks: usize,
}

fn program(d: &mut D, control: u64, len: usize) -> Option<Program> {
    // the same name may occur in several folders
    let paths = *d.pick(&[["main.hpp", "inc/one.hpp", "two.inc.hpp", "inc/deep/three.h", "four"], ["main.hpp", "inc/main.hpp", "one.hpp", "inc/one.hpp", "inc/deep/one.hpp"], ["main.hpp", "a/b.hpp", "b.hpp", "b/b.hpp", "b/a/main.hpp"]]);
    let n = if control == 0 { 1 } else { d.usize(1, 5) };
    let mut g = Gen { d, st: Ref::default(), files: Vec::new(), marks: 0, control, rejected: 0, funcs: HashMap::new() };
    g.st.paths = paths.iter().map(|s| (*s).to_string()).collect();
    for p in &paths[..n] {
        let open = g.d.chance(1, 3);
        let styles = g.d.raw();
        g.files.push(File { path: (*p).to_string(), nodes: Vec::new(), open, styles });
    }
    // the files are written under the macros of the program so far, which is valid when included first
    for i in (1..n).rev() {
        let st = g.st.clone();
        let funcs = g.funcs.clone();
        let k = g.d.usize(0, 4);
        g.st.file = i;
        let nodes = g.nodes(k, 1, i);
        g.files[i].nodes = nodes;
        g.st = st;
        g.funcs = funcs;
    }
    let k = g.d.usize(4, len);
    let nodes = g.nodes(k, 3, 0);
    g.files[0].nodes = nodes;
    let (mut files, marks, rejected) = (g.files, g.marks, g.rejected);
    let texts = print(&mut files);
    let mut r = Ref { paths: texts.iter().map(|f| f.0.clone()).collect(), ..Ref::default() };
    for n in &files[0].nodes {
        if r.node(n, &files).is_err() {
            return None;
        }
    }
    Some(Program { files: texts, expect: r, rejected, marks })
}

fn squash(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn show(files: &[(String, String)]) -> String {
    files.iter().map(|(p, t)| format!("--- {p}\n{t}")).collect::<Vec<_>>().join("\n")
}

fn run(d: &mut D, c: &mut Case, control: u64) -> Result<Option<(Program, hemtt_workspace::reporting::Processed, hemtt_workspace::WorkspacePath)>, Fail> {
    let len = if c.thorough { 30 } else { 16 };
    let Some(p) = program(d, control, len) else {
        c.note("not described");
        return Ok(None);
    };
    c.input(&show(&p.files));
    // line ends of Windows make no difference
    let crlf = d.chance(1, 6);
    c.note_if(crlf, "CRLF");
    let root = if crlf { ws::memory(&p.files.iter().map(|(n, t)| (n, t.replace('\n', "\r\n"))).collect::<Vec<_>>()) } else { ws::memory(&p.files) };
    let main = root.join("main.hpp").expect("join");
    let processed = match hemtt_preprocessor::Processor::run(&main) {
        Ok(x) => x,
        Err((_, e)) => {
            let code = e.get_code().map_or_else(|| format!("{e:?}"), |c| format!("{}: {}", c.ident(), c.message()));
            fail!("rejected", "the program is valid, but was rejected with {code}\n{}", show(&p.files))
        }
    };
    c.note_if(p.expect.expansions > 0, "expands");
    c.note_if(p.expect.nested > 0, "nested");
    c.note_if(p.expect.skipped > 0, "conditions");
    c.note_if(p.expect.includes > 0, "includes");
    c.note_if(!p.expect.redefined.is_empty(), "redefines");
    c.note_if(p.rejected > 0, "drew something invalid");
    Ok(Some((p, processed, root)))
}

fn expand(d: &mut D, c: &mut Case) -> R {
    let Some((p, got, _)) = run(d, c, 0)? else { return Ok(()) };
    c.nontrivial(p.expect.nested > 0);
    compare(&p, &got)
}
fn compare(p: &Program, got: &hemtt_workspace::reporting::Processed) -> R {
    let want: String = p.expect.out.iter().map(|x| x.text.as_str()).collect();
    let (w, g) = (squash(&want), squash(got.as_str()));
    ensure!(w == g, "expansion", "expected:\n{w}\ngot:\n{g}\nfrom\n{}", show(&p.files));
    Ok(())
}
fn control(d: &mut D, c: &mut Case) -> R {
    let Some((p, got, _)) = run(d, c, 2)? else { return Ok(()) };
    c.nontrivial(p.expect.skipped > 0 || p.expect.includes > 0);
    compare(&p, &got)
}

fn marks(s: &str) -> Vec<(usize, String)> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i + 2 < b.len() {
        if &b[i..i + 2] == b"mk" && b[i + 2].is_ascii_digit() {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j < b.len() && b[j] == b'z' {
                v.push((i, s[i..=j].to_string()));
            }
            i = j;
        } else {
            i += 1;
        }
    }
    v
}

fn mapping(d: &mut D, c: &mut Case) -> R {
    let k = 1 + d.below(2);
    let Some((p, got, root)) = run(d, c, k)? else { return Ok(()) };
    let out = got.as_str();
    let files = show(&p.files);
    // what is expected for each marker, in order
    let mut want = Vec::new();
    for chunk in &p.expect.out {
        for (_, m) in marks(&chunk.text) {
            want.push((m, chunk));
        }
    }
    let have = marks(out);
    c.nontrivial(want.iter().any(|(_, ch)| ch.call.is_some()) || want.iter().any(|(_, ch)| ch.file > 0));
    ensure!(have.iter().map(|x| &x.1).eq(want.iter().map(|x| &x.0)), "markers", "expected {:?}, got {out:?}\n{files}", want.iter().map(|x| &x.0).collect::<Vec<_>>());
    let sources = got.sources();
    for ((byte, m), (_, chunk)) in have.iter().zip(&want) {
        if chunk.line == 0 {
            continue;
        }
        let first = out[..*byte].chars().count();
        let (path, text) = &p.files[chunk.file];
        for off in first..first + m.len() {
            let Some(map) = got.mapping(off) else { fail!("unmapped", "{m} at {off} leads nowhere\n{files}") };
            let pos = map.original();
            let expect = root.join(path).expect("join");
            ensure!(pos.path().as_str() == expect.as_str(), "file", "{m} is from {path}, got {}\n{files}", pos.path().as_str());
            ensure!(sources[map.source()].0.as_str() == expect.as_str() && sources[map.source()].1 == *text, "source", "{m} is from {path}, got source {}\n{files}", sources[map.source()].0.as_str());
            ensure!(pos.start().line() == chunk.line, "line", "{m} is from {path}:{}, got line {}\n{files}", chunk.line, pos.start().line());
            let begin = text[..pos.start().offset()].rfind('\n').map_or(0, |x| x + 1);
            let column = text[begin..pos.start().offset()].len();
            ensure!(pos.start().column() == column, "column", "{m} is from {path}:{}:{column}, got column {}\n{files}", chunk.line, pos.start().column());
            let word = text.get(pos.start().offset()..pos.end().offset());
            let name = chunk.call.as_ref().unwrap_or(m);
            ensure!(word == Some(name.as_str()), "place", "{m} is from the {name} in {path}:{}, got {word:?}\n{files}", chunk.line);
            ensure!(text[..pos.start().offset()].matches('\n').count() + 1 == chunk.line, "place", "{m} is from {path}:{}, got another {name}\n{files}", chunk.line);
            ensure!(map.was_macro() == chunk.call.is_some(), "macro", "{m} is {}from a macro\n{files}", if chunk.call.is_some() { "" } else { "not " });
        }
        let end = first + m.len();
        ensure!(got.get_byte_offset(first) as usize == *byte, "byte offset", "{} for character {first}, which is byte {byte} of {out:?}", got.get_byte_offset(first));
        ensure!(&*got.extract(first..end) == m.as_str(), "extract", "{:?} for {first}..{end} of {out:?}", got.extract(first..end));
        ensure!(&*got.extract_from(first..) == &out[*byte..], "extract", "{:?} from {first} of {out:?}", got.extract_from(first..));
    }
    // the place of each part is a part of the file
    for map in got.raw_mappings() {
        let at = map.processed_start().offset();
        ensure!(got.mapping(at).is_some_and(|m| m.processed_start().offset() <= at), "unmapped", "a token starts at {at}, which leads nowhere\n{files}");
    }
    // every part of the text is covered, in order
    let total = out.chars().count();
    let mut at = 0;
    for map in got.raw_mappings().iter().filter(|m| !m.was_macro()) {
        ensure!(map.processed_start().offset() == at, "gap", "a token starts at {} after {at}\n{files}", map.processed_start().offset());
        let lines = out.chars().take(at).filter(|c| *c == '\n').count();
        ensure!(map.processed_start().line() == lines, "text line", "the token at {at} is on line {lines} of the text, got {}\n{files}", map.processed_start().line());
        at += map.token().to_source().chars().count();
        let text = &sources[map.source()].1;
        ensure!(text.get(map.original_start()..map.original_end()).is_some(), "outside", "a token is from {}..{} of a text of {} bytes\n{files}", map.original_start(), map.original_end(), text.len());
    }
    ensure!(at == total, "gap", "the tokens end at {at} of {total}\n{files}");
    Ok(())
}

/// Long chains of macros, many arguments, deep calls
fn deep(d: &mut D, c: &mut Case) -> R {
    let mut text = String::new();
    let mut want = String::new();
    match d.below(5) {
        4 => {
            // strings over several lines
            let n = d.usize(1, 4);
            let body: Vec<usize> = (0..d.usize(1, 4)).map(|_| d.usize(0, n - 1)).collect();
            text.push_str(&format!("#define OTHER 7\n#define M({}) [{}]\n", (0..n).map(|i| format!("p{i}")).collect::<Vec<_>>().join(","), body.iter().map(|i| format!("p{i}")).collect::<Vec<_>>().join("; ")));
            let args: Vec<String> = (0..n)
                .map(|i| {
                    let parts: Vec<&str> = (0..d.usize(1, 5)).map(|_| *d.pick(&["\n", ",", ")", "(", "OTHER", "p0", "a", " ", "\n#", "é"])).collect();
                    if d.chance(1, 4) { format!("a{i}") } else { format!("\"x{}y\"", parts.concat()) }
                })
                .collect();
            text.push_str(&format!("val M({});", args.join(",")));
            want = format!("val [{}];", body.iter().map(|i| args[*i].clone()).collect::<Vec<_>>().join("; "));
            c.note("strings over lines");
        }
        0 => {
            // each macro is the next one
            let n = d.usize(2, if c.thorough { 200 } else { 60 });
            let rev = d.bool();
            let mut lines: Vec<String> = (0..n).map(|i| if i + 1 == n { format!("#define M{i} end") } else { format!("#define M{i} {i} M{}", i + 1) }).collect();
            if rev {
                lines.reverse();
            }
            text = lines.join("\n") + "\nval M0;";
            want = (0..n - 1).map(|i| format!("{i} ")).collect::<String>();
            want = format!("val {want}end;");
            c.note("chain");
        }
        1 => {
            let n = d.usize(2, 64);
            let body: Vec<usize> = (0..d.usize(1, 8)).map(|_| d.usize(0, n - 1)).collect();
            text.push_str(&format!("#define M({}) {}\n", (0..n).map(|i| format!("p{i}")).collect::<Vec<_>>().join(","), body.iter().map(|i| format!("p{i}")).collect::<Vec<_>>().join(" ")));
            let args: Vec<String> = (0..n).map(|i| format!("arg{i}")).collect();
            text.push_str(&format!("val M({});", args.join(",")));
            want = format!("val {};", body.iter().map(|i| args[*i].clone()).collect::<Vec<_>>().join(" "));
            c.note("arguments");
        }
        2 => {
            let n = d.usize(2, if c.thorough { 24 } else { 12 });
            text.push_str("#define M(x) <x>\nval ");
            text.push_str(&format!("{}1{};", "M(".repeat(n), ")".repeat(n)));
            want = format!("val {}1{};", "<".repeat(n), ">".repeat(n));
            c.note("calls in arguments");
        }
        _ => {
            let n = d.usize(2, if c.thorough { 60 } else { 24 });
            for i in 0..n {
                text.push_str(&if i + 1 == n { format!("#define M{i}(x,y) x y\n") } else { format!("#define M{i}(x,y) M{}(y,x) {i}\n", i + 1) });
            }
            text.push_str("val M0(left,right);");
            let (a, b) = if n % 2 == 1 { ("left", "right") } else { ("right", "left") };
            want.push_str(&format!("val {a} {b}{};", (0..n - 1).rev().map(|i| format!(" {i}")).collect::<String>()));
            c.note("calls in values");
        }
    }
    c.input(&text);
    c.nontrivial(true);
    let root = ws::memory(&[("main.hpp", text.clone())]);
    match hemtt_preprocessor::Processor::run(&root.join("main.hpp").expect("join")) {
        Ok(x) => ensure!(squash(x.as_str()) == squash(&want), "expansion", "expected:\n{want}\ngot:\n{}\nfrom\n{text}", x.as_str()),
        Err((_, e)) => fail!("rejected", "{e:?}\n{text}"),
    }
    Ok(())
}
/// Very many uses
fn many(d: &mut D, c: &mut Case) -> R {
    let n = match d.below(8) {
        0 => d.usize(65_530, 65_545),
        1 if c.thorough => d.usize(65_546, 200_000),
        _ => d.usize(500, 5_000),
    };
    let per = d.usize(1, 40);
    let reset = d.chance(1, 4).then(|| d.usize(0, n - 1));
    let hidden = d.bool();
    let mut text = String::from(if hidden { "#define NEXT __COUNTER__\n" } else { "" });
    let mut want = String::new();
    let mut at = 0;
    for i in 0..n {
        if reset == Some(i) {
            text.push_str("__COUNTER_RESET__ ");
            at = 0;
        }
        text.push_str(if hidden { "NEXT" } else { "__COUNTER__" });
        text.push(if i % per == 0 { '\n' } else { ' ' });
        want.push_str(&format!("{at} "));
        at += 1;
    }
    c.input(&format!("{n} uses, {per} in a line, reset at {reset:?}, {hidden}"));
    c.nontrivial(true);
    c.note_if(n > 65_536, "more than 65536");
    let root = ws::memory(&[("main.hpp", text)]);
    match hemtt_preprocessor::Processor::run(&root.join("main.hpp").expect("join")) {
        Ok(x) => {
            let got: Vec<&str> = x.as_str().split_whitespace().collect();
            let want: Vec<&str> = want.split_whitespace().collect();
            let place = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            ensure!(got == want, "counter", "use {place} is {:?} instead of {:?}", got.get(place), want.get(place));
        }
        Err((_, e)) => fail!("rejected", "{e:?}"),
    }
    Ok(())
}
/// Long chains of includes, conditions within conditions
fn long(d: &mut D, c: &mut Case) -> R {
    let mut files: Vec<(String, String)> = Vec::new();
    let mut want = String::new();
    if d.bool() {
        let n = d.usize(2, 120);
        let mut tail = String::new();
        for i in 0..n {
            let next = if i + 1 < n { format!("#include \"f{}.hpp\"\n", i + 1) } else { String::new() };
            let (before, after) = (d.bool(), d.bool());
            let mut t = String::new();
            if before {
                t.push_str(&format!("b{i};\n"));
                want.push_str(&format!("b{i}; "));
            }
            t.push_str(&next);
            if after {
                t.push_str(&format!("a{i};\n"));
                tail.insert_str(0, &format!("a{i}; "));
            }
            files.push((format!("f{i}.hpp"), t));
        }
        want.push_str(&tail);
        c.note("includes");
    } else {
        let n = d.usize(2, 60);
        let mut on = true;
        let (mut head, mut tail) = (String::new(), String::new());
        let (mut pre, mut post) = (String::new(), String::new());
        for i in 0..n {
            let yes = !d.chance(1, 12);
            let els = d.bool();
            head.push_str(&format!("{}\ni{i};\n", if yes { "#ifndef NOPE" } else { "#ifdef NOPE" }));
            tail.insert_str(0, &if els { format!("o{i};\n#else\ne{i};\n#endif\n") } else { format!("o{i};\n#endif\n") });
            let after = if els && !yes { format!("e{i}; ") } else if yes { format!("o{i}; ") } else { String::new() };
            if on {
                if yes {
                    pre.push_str(&format!("i{i}; "));
                }
                post.insert_str(0, &after);
            }
            on &= yes;
        }
        want = pre + &post;
        files.push(("f0.hpp".into(), head + &tail));
        c.note("conditions");
    }
    c.input(&show(&files));
    c.nontrivial(true);
    let root = ws::memory(&files);
    match hemtt_preprocessor::Processor::run(&root.join("f0.hpp").expect("join")) {
        Ok(x) => ensure!(squash(x.as_str()) == squash(&want), "text", "expected:\n{want}\ngot:\n{}\nfrom\n{}", x.as_str(), show(&files)),
        Err((_, e)) => fail!("rejected", "{e:?}\n{}", show(&files)),
    }
    Ok(())
}

struct Here;
impl hemtt_workspace::reporting::Code for Here {
    fn ident(&self) -> &'static str {
        "HERE"
    }
    fn message(&self) -> String {
        "it is here".into()
    }
}
/// A report about a part of the text is shown at its source.
fn labels(d: &mut D, c: &mut Case) -> R {
    let k = 1 + d.below(2);
    let Some((p, got, root)) = run(d, c, k)? else { return Ok(()) };
    let out = got.as_str();
    let files = show(&p.files);
    let mut want = Vec::new();
    for chunk in &p.expect.out {
        for (_, m) in marks(&chunk.text) {
            want.push((m, chunk));
        }
    }
    let have = marks(out);
    c.nontrivial(want.iter().any(|(_, ch)| ch.call.is_some()) || want.iter().any(|(_, ch)| ch.file > 0));
    if !have.iter().map(|x| &x.1).eq(want.iter().map(|x| &x.0)) {
        return Ok(());
    }
    let known = hemtt_workspace::reporting::WorkspaceFiles::new();
    let total = out.chars().count();
    for ((byte, m), (_, chunk)) in have.iter().zip(&want) {
        let first = out[..*byte].chars().count();
        // also parts that go on, to the end of the text and further
        let more = d.usize(0, 12);
        let ends = [first + m.len(), first + m.len() + more, total, total + more];
        for end in ends {
            let Some(diag) = hemtt_workspace::reporting::Diagnostic::from_code_processed(&Here, first..end, &got) else {
                fail!("no report", "{m} at {first}..{end} of {total}\n{files}")
            };
            let shown = diag.to_string(&known);
            let notes = diag.to_annotations(&known);
            ensure!(shown.contains("HERE") && notes.len() == 1, "report", "{shown}");
            let n = &notes[0];
            ensure!((n.end_line, n.end_column) >= (n.start_line, n.start_column), "backwards", "{m} at {first}..{end} of {total} is told from {}:{} to {}:{} of {}\n{files}\n--- out\n{out}", n.start_line, n.start_column, n.end_line, n.end_column, n.path);
            if chunk.line == 0 || end != first + m.len() {
                continue;
            }
            let (path, text) = &p.files[chunk.file];
            ensure!(*diag.labels[0].file() == root.join(path).expect("join"), "file", "{m} is from {path}, told in {}\n{files}", diag.labels[0].file());
            let range = diag.labels[0].to_codespan().range;
            let name = chunk.call.as_ref().unwrap_or(m);
            ensure!(text.get(range.start..).is_some_and(|t| t.starts_with(name.as_str())), "place", "{m} is from the {name} in {path}, told at {range:?}\n{files}");
            let col = text[..range.start].rsplit('\n').next().unwrap_or("").chars().count() + 1;
            ensure!((notes[0].start_line, notes[0].start_column) == (chunk.line, col), "line", "{m} is from {path}:{}:{col}, told at {}:{}\n{files}", chunk.line, notes[0].start_line, notes[0].start_column);
        }
    }
    Ok(())
}

/// (codes, lines before it, the fault with its wrong part in «», structure)
/// structure: 0 a line like any other, 1 changes the conditions, 2 only at the end of a file
const FAULTS: &[(&[&str], &str, &str, u8)] = &[
    (&["PE1"], "", "#ifdef XX «extra»\n#endif", 0),
    (&["PE1"], "", "#ifndef XX /* c */ «+» 1\n#endif", 0),
    (&["PE1"], "", "#undef XX «y»", 0),
    (&["PE1"], "", "#define FUN(«,»a) x", 0),
    (&["PE1"], "", "#define FUN(a,«,»b) x", 0),
    (&["PE1"], "", "#define FUN(a «+» b) x", 0),
    (&["PE1"], "", "#define FUN(a,«1»b) x", 0),
    (&["PE1"], "", "#«else»", 1),
    (&["PE1"], "", "#ifdef XX\n#else «XX»\n#endif", 1),
    (&["PE1"], "", "#ifdef XX\n#endif «XX»", 1),
    (&["PE2"], "", "#«if»\n#endif", 0),
    (&["PE2"], "#define FUN(x) x", "val = FUN(1", 2),
    (&["PE2"], "#define FUN(x,y) x", "FUN(1,\"a)b", 2),
    (&["PE3", "PE2"], "", "#define", 2),
    (&["PE3", "PE2"], "", "#ifdef", 2),
    (&["PE13", "PE2"], "", "#include \"abc", 2),
    (&["PE3"], "", "#define «1»abc 2", 0),
    (&["PE3"], "", "#ifdef «\"»xx\"\n#endif", 0),
    (&["PE3"], "", "#undef «+»", 0),
    (&["PE4"], "", "#«unknown» 1", 0),
    (&["PE4"], "", "#«elif» XX", 0),
    (&["PE4"], "", "#«Define» XX 1", 0),
    (&["PE4"], "", "    #«includes» \"x\"", 0),
    (&["PE5"], "", "#define FUN(aa «bb») aa", 0),
    (&["PE5"], "", "#define FUN(cc, aa /* c */ «bb», dd) aa", 0),
    (&["PE6"], "", "#define «__LINE__» 1", 0),
    (&["PE6"], "", "#define «__COUNTER__» 1", 0),
    (&["PE6"], "", "#define «__EVAL»(x) x", 0),
    (&["PE6"], "", "#define «__ARMA__» 0", 0),
    (&["PE6"], "", "#define «__RAND_INT64__» 0", 0),
    (&["PE6"], "", "#define «__DAY__» 0", 0),
    (&["PE7"], "#define UNIT", "#if «UNIT» == 1\n#endif", 0),
    (&["PE7"], "#define FUN(x) x", "#if 1 == «FUN»\n#endif", 0),
    (&["PE7"], "#define UNIT", "#if «UNIT»\n#endif", 0),
    (&["PE8"], "", "#if «NOTDEFINED»\n#endif", 0),
    (&["PE9"], "#define FUN(x) x", "val = «FUN»(1,2);", 0),
    (&["PE9"], "#define FUN(x) x", "val = «FUN»();", 0),
    (&["PE9"], "#define FUN(x) x", "val = «FUN»(1,);", 0),
    (&["PE9"], "#define FUN(x,y) x\n#define ONE(x) x", "val = 'é' ONE(«FUN»(1));", 0),
    (&["PE9"], "#define FUN(x,y,z) x", "val = «FUN»(FUN(1,2,3),\"a,b\");", 0),
    (&["PE9"], "#define FUN() x", "val = «FUN»(1);", 0),
    (&["PE10"], "#define FUN(x) x", "val = «FUN»;", 0),
    (&["PE10"], "#define FUN(x) x", "«FUN» (1)", 0),
    (&["PE10"], "#define FUN(x) x\n#define ONE(x) x", "ONE(1 + «FUN»)", 0),
    (&["PE11"], "#define UNIT", "val = «UNIT»;", 0),
    (&["PE11"], "#define UNIT\n#define ONE(x) x", "ONE(«UNIT»)", 0),
    (&["PE10"], "#define FUN(x) x", "#define ONE «FUN»\nONE", 0),
    (&["PE10"], "#define FUN(x) x", "#define ONE(x) x «FUN»\nval = ONE(1)", 0),
    (&["PE11"], "#define UNIT", "#define ONE «UNIT»\nONE (1)", 0),
    (&["PE2"], "", "#if", 2),
    (&["PE2"], "#define VAL 1", "#if VAL >", 2),
    (&["PE7"], "#define UNIT ", "#if 1 == «UNIT»\n#endif", 0),
    (&["PE7"], "#define UNIT // c", "#if «UNIT»\n#endif", 0),
    (&["PE7"], "", "#if «__COUNTER_RESET__»\n#endif", 0),
    (&["PE18"], "#define VAL 1", "#«if» VAL", 2),
    (&["PE12"], "", "#include \"«missing.hpp»\"", 0),
    (&["PE12"], "", "#include <«inc\\missing.hpp»>", 0),
    (&["PE12"], "", "#include \"«\\x\\missing.hpp»\" // c", 0),
    (&["PE13"], "", "#include «missing».hpp", 0),
    (&["PE13"], "", "#include «\"missing.hpp\n»", 0),
    (&["PE14"], "", "#include \"empty.hpp\"«;»", 0),
    (&["PE14"], "", "#include <empty.hpp> «x»", 0),
    (&["PE15"], "", "#if 1 «=» 1\n#endif", 0),
    (&["PE15"], "", "#if 1 «===» 1\n#endif", 0),
    (&["PE15"], "", "#if 1 «and» 1\n#endif", 0),
    (&["PE15", "PE16"], "", "#if abc «<» 1\n#endif", 0),
    (&["PE15", "PE16"], "#define VAL a", "#if 1 «>=» VAL\n#endif", 0),
    (&["PE17"], "", "#ifdef XX\n#else\n#«else»\n#endif", 1),
    (&["PE17"], "", "#ifdef XX\n#else\n#ifdef YY\n1\n#else\n2\n#endif\n#«else»\n#endif", 1),
    (&["PE17"], "", "#ifndef XX\n1\n#else\n#ifdef YY\n#endif\n#«else»\n#endif", 1),
    (&["PE18"], "", "#«ifdef» XX", 1),
    (&["PE18"], "", "#«ifndef» XX\n#else", 1),
    (&["PE18"], "", "#«if» 1 == 1", 1),
    (&["PE19"], "", "#pragma hemtt «nothing» x", 0),
    (&["PE20"], "", "#pragma hemtt suppress pw3_padded_arg «always»", 0),
    (&["PE21"], "", "#pragma hemtt suppress «pw9» file", 0),
    (&["PE22"], "", "#pragma hemtt flag «nope»", 0),
    (&["PE23"], "", "#if «__has_include»(\"x\")\n#endif", 0),
    (&["PE25"], "", "«__EXEC»(a = 1;)", 0),
    (&["PE26"], "", "val = «__TIME__»;", 0),
    (&["PE26"], "", "val = «__RAND_INT8__»;", 0),
    (&["PE26"], "", "val = «__RAND_UINT32__» + 1;", 0),
    (&["PE26"], "", "val = «__DATE_STR_ISO8601__»;", 0),
    (&["PE26"], "", "«__A3_DEBUG__»", 0),
    (&["PE26"], "#define FUN(x) x", "val = FUN(«__TIME__»);", 0),
    (&["PE26"], "#define FUN(x,y) x y", "val = FUN(a,(«__RAND_INT16__»));", 0),
    (&["PE25"], "#define FUN(x) x", "val = FUN(«__EXEC»(1));", 0),
    (&["PE26"], "", "val = \"a\" + «__GAME_VER__»;", 0),
];

fn quiet(d: &mut D, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let l = *d.pick(&[
            "value = 1;",
            "// a comment with a 'quote and é",
            "/* two\nlines */",
            "",
            "text = \"é漢😀 __TIME__ #unknown\";",
            "#define OTHER 1",
            "#undef OTHER",
            "#ifdef NEVER\nNEVER\n#else\nx = __LINE__;\n#endif",
            "#define MANY(a,b) a \\\n    b",
            "    word word",
            "#define é1 1",
            "#define 漢x 1 + é1",
            "#ifdef NEVER\n#ifndef NEVER\n#else\n#endif\n#endif",
            "one \\\n    two",
        ]);
        // redefinition is a warning, so keep the two names apart
        s.push_str(l);
        s.push('\n');
    }
    s
}

fn faults(d: &mut D, c: &mut Case) -> R {
    let i = d.below(FAULTS.len() as u64) as usize;
    let (codes, before, fault, kind) = FAULTS[i];
    let n = d.usize(0, 6);
    let mut t = quiet(d, n);
    let mut tail = String::new();
    // inside conditions that are read, or that are not
    let skipped = kind == 0 && d.chance(1, 3);
    if skipped {
        let w = *d.pick(&["#ifdef NEVER", "#ifndef __LINE__", "#if 1 == 2", "#ifdef __LINE__\n#else"]);
        t.push_str(w);
        t.push('\n');
        tail.push_str("#endif\n");
        if d.bool() {
            t.push_str("#ifdef __LINE__\n");
            tail.insert_str(0, "#endif\n");
        }
    } else {
        for _ in 0..d.below(3) {
            if kind == 1 || d.bool() {
                break;
            }
            let w = *d.pick(&["#ifndef NEVER", "#ifdef __LINE__", "#if 1 == 1", "#if 1 < 2", "#ifdef NEVER\nNEVER\n#else"]);
            t.push_str(w);
            t.push('\n');
            tail.push_str("#endif\n");
        }
    }
    if !before.is_empty() {
        t.push_str(before);
        t.push('\n');
        let n = d.usize(0, 2);
        t.push_str(&quiet(d, n));
    }
    if d.bool() && fault.starts_with('#') {
        t.push_str("  ");
    }
    let from = t.len();
    let a = fault.find('«');
    let b = fault.find('»');
    t.push_str(&fault.replace(['«', '»'], ""));
    let mark = a.zip(b).map(|(a, b)| (from + a, from + b - '«'.len_utf8()));
    let after;
    if kind == 2 {
        after = t.len();
        if d.bool() && !fault.ends_with("abc") {
            t.push_str(*d.pick(&["\n", " ", "\n\n"]));
        }
    } else {
        t.push('\n');
        after = t.len();
        let n = d.usize(0, 4);
        let q = quiet(d, n);
        t.push_str(&q);
        t.push_str(&tail);
    }
    let _ = after;
    // in the main file or in an included one
    let path = *d.pick(&["main.hpp", "main.hpp", "inc/sub.hpp", "sub.hpp"]);
    let mut files = vec![("empty.hpp".to_string(), String::new())];
    if path == "main.hpp" {
        files.push(("main.hpp".into(), t.clone()));
    } else {
        let n = d.usize(0, 4);
        let pre = quiet(d, n);
        let mid = d.bool();
        let inc = |p: &str| format!("#include \"\\{}\"\n", p.replace('/', "\\"));
        let target = if mid { "mid.hpp" } else { path };
        files.push(("main.hpp".into(), format!("{pre}{}value = 2;\n", inc(target))));
        if mid {
            files.push(("mid.hpp".into(), format!("\n{}", inc(path))));
        }
        files.push((path.into(), t.clone()));
    }
    let all = show(&files);
    c.input(&all);
    c.nontrivial(true);
    c.note(codes[codes.len() - 1]);
    c.note_if(skipped, "skipped");
    let root = ws::memory(&files);
    let r = hemtt_preprocessor::Processor::run(&root.join("main.hpp").expect("join"));
    if skipped {
        match r {
            Ok(_) => return Ok(()),
            Err((_, e)) => fail!("skipped", "a fault in lines that are skipped is reported: {:?}\n{all}", e.get_code().map(|c| c.message())),
        }
    }
    let e = match r {
        Ok(p) => fail!("missed", "{} is not reported, the text is {:?}\n{all}", codes[0], p.as_str()),
        Err((_, e)) => e,
    };
    let Some(code) = e.get_code() else { fail!("no code", "{e:?}\n{all}") };
    let ids = [code.ident().to_string()];
    ensure!(codes.contains(&ids[0].as_str()), "wrong code", "{} expected, got {}: {}\n{all}", codes[0], ids[0], code.message());
    let Some(diag) = code.diagnostic() else { fail!("no diagnostic", "{}\n{all}", ids[0]) };
    let _ = diag.to_string(&hemtt_workspace::reporting::WorkspaceFiles::new());
    let primary: Vec<_> = diag.labels.iter().filter(|l| l.to_codespan().style == codespan_reporting::diagnostic::LabelStyle::Primary).collect();
    ensure!(primary.len() == 1, "labels", "{} places are marked for {}\n{all}", primary.len(), ids[0]);
    let want = root.join(path).expect("join");
    ensure!(primary[0].file().as_str() == want.as_str(), "wrong file", "{} is in {path}, reported in {}\n{all}", ids[0], primary[0].file().as_str());
    let span = primary[0].to_codespan().range;
    let line = |at: usize| t.get(..at).map_or(0, |x| x.matches('\n').count() + 1);
    match mark {
        Some((a, b)) => {
            ensure!(line(span.start) == line(a), "wrong line", "{} is on line {} of {path}, reported on line {}\n{all}", ids[0], line(a), line(span.start));
            ensure!(t.get(span.clone()) == Some(&t[a..b]), "wrong place", "{} marks {:?} instead of {:?} on line {} of {path}\n{all}", ids[0], t.get(span.clone()), &t[a..b], line(a));
            ensure!(span.start == a, "wrong place", "{} marks another {:?} on line {} of {path}\n{all}", ids[0], &t[a..b], line(a));
        }
        None => ensure!(line(span.start) >= line(from) && span.end <= t.len(), "wrong line", "{} is on line {} of {path}, reported on line {}\n{all}", ids[0], line(from), line(span.start)),
    }
    Ok(())
}

/// What the warnings of a program must be.
#[derive(Default)]
struct Warn {
    files: Vec<(String, String)>,
    /// (code, file, text, offset)
    want: Vec<(&'static str, String, String, usize)>,
    defined: std::collections::HashSet<&'static str>,
    has_config: bool,
    asked_include: bool,
}
#[derive(Clone, Default)]
struct Scopes {
    suppress: Option<u8>,
    format: Option<u8>,
    include: Option<u8>,
}
impl Scopes {
    const fn all(&mut self) -> [&mut Option<u8>; 3] {
        [&mut self.suppress, &mut self.format, &mut self.include]
    }
    fn end_line(&mut self) {
        for x in self.all() {
            if *x == Some(0) {
                *x = None;
            }
        }
    }
    fn child(&self) -> Self {
        let keep = |x: Option<u8>| if x == Some(2) { x } else { None };
        Self { suppress: keep(self.suppress), format: keep(self.format), include: keep(self.include) }
    }
}
impl Warn {
    fn push(&mut self, code: &'static str, file: usize, at: usize, text: &str) {
        let path = self.files[file].0.clone();
        if code == "PW3" && self.want.iter().any(|w| w.0 == code && w.1 == path && w.3 == at) {
            return;
        }
        self.want.push((code, path, text.to_string(), at));
    }
    /// Arguments of a call; the padding of each is remembered.
    fn call(&mut self, d: &mut D, file: usize, sc: &Scopes, depth: u32) {
        const FUNS: &[(&str, usize)] = &[("FUN", 1), ("TWO", 2), ("ARR_3", 3), ("TRACE_1", 2), ("ERROR_MSG", 1), ("XARR_1", 1), ("arr_1", 1), ("FORMAT_2", 3), ("LARR", 1)];
        let (name, n) = *d.pick(FUNS);
        self.files[file].1.push_str(name);
        self.files[file].1.push('(');
        let quiet = sc.suppress.is_some() || (sc.format.is_some() && ["ARR_", "TRACE_", "INFO_", "WARNING_", "ERROR_", "DEBUG_", "FORMAT_"].iter().any(|p| name.starts_with(p)));
        for i in 0..n {
            if i > 0 {
                self.files[file].1.push(',');
            }
            let pad = |d: &mut D| if d.chance(1, 3) { *d.pick(&[" ", "\t", "  "]) } else { "" };
            let before = pad(d);
            if !before.is_empty() && !quiet {
                let at = self.files[file].1.len();
                self.push("PW3", file, at, &before[..1]);
            }
            self.files[file].1.push_str(before);
            match d.below(5) {
                // an argument that is itself a call is looked at twice, under two names
                0 if depth < 2 && (sc.format.is_none() || sc.suppress.is_some()) => self.call(d, file, sc, depth + 1),
                1 => self.files[file].1.push_str("[a b]"),
                2 => self.files[file].1.push_str("\"a , é\""),
                3 => self.files[file].1.push_str("(a )"),
                _ => self.files[file].1.push_str("word"),
            }
            let after = pad(d);
            self.files[file].1.push_str(after);
            if !after.is_empty() && !quiet {
                let at = self.files[file].1.len() - 1;
                self.push("PW3", file, at, &after[after.len() - 1..]);
            }
        }
        self.files[file].1.push(')');
    }
    fn line(&mut self, d: &mut D, file: usize, sc: &mut Scopes, line: &str) {
        self.files[file].1.push_str(line);
        if d.bool() {
            self.files[file].1.push_str("val = ");
        }
        self.call(d, file, sc, 0);
        self.files[file].1.push_str(";\n");
        sc.end_line();
    }
    fn has_include(&mut self, file: usize, sc: &mut Scopes) {
        self.files[file].1.push_str("#if __has_include(\"empty.hpp\")\nBAD\n#else\nGOOD\n#endif\n");
        self.asked_include = true;
        sc.end_line();
    }
    fn file(&mut self, d: &mut D, file: usize, sc: &mut Scopes, depth: u32) {
        let n = d.usize(1, 9);
        for _ in 0..n {
            match d.weighted(&[4, 3, 2, if depth < 2 { 3 } else { 0 }, 2, 1]) {
                0 => self.line(d, file, sc, ""),
                1 => {
                    let scope = d.below(if depth == 0 { 3 } else { 2 }) as u8;
                    let word = ["", " line", " file", " config"][if scope == 0 { d.below(2) as usize } else { scope as usize + 1 }];
                    let which = d.below(3) as usize;
                    let text = ["suppress pw3_padded_arg", "flag pw3_ignore_format", "flag pe23_ignore_has_include"][which];
                    let lead = *d.pick(&["", "  ", "\t"]);
                    self.files[file].1.push_str(&format!("{lead}#pragma hemtt {text}{word}\n"));
                    let slot = *sc.all()[which];
                    if slot.is_none_or(|x| x <= scope) {
                        *sc.all()[which] = Some(scope);
                    }
                    self.has_config |= scope == 2;
                    if scope == 0 {
                        match d.below(4) {
                            0 => {
                                self.files[file].1.push_str(*d.pick(&["x = 1;\n", "\n", "word // c\n"]));
                                sc.end_line();
                            }
                            1 if sc.include.is_some() => self.has_include(file, sc),
                            _ => self.line(d, file, sc, ""),
                        }
                    }
                }
                2 => {
                    let name = *d.pick(&["NAME", "Name", "OTHER"]);
                    let lead = *d.pick(&["#define ", "  #define ", "#define  "]);
                    let at = self.files[file].1.len() + lead.len();
                    if !self.defined.insert(name) {
                        self.push("PW1", file, at, name);
                    }
                    let tail = *d.pick(&["", " 1", "(a) a", " NAME"]);
                    self.files[file].1.push_str(&format!("{lead}{name}{tail}\n"));
                }
                3 => {
                    // included once, or the same one again
                    let k = self.files.len();
                    let name = format!("sub{k}.hpp");
                    let up = *d.pick(&["", "./"]);
                    self.files[file].1.push_str(&format!("#include \"{up}{name}\"\n"));
                    self.files.push((name, String::new()));
                    let mut inner = sc.child();
                    self.file(d, k, &mut inner, depth + 1);
                }
                4 => {
                    let name = *d.pick(&["NAME", "Name", "OTHER"]);
                    self.files[file].1.push_str(&format!("#undef {name}\n"));
                    self.defined.remove(name);
                }
                _ if sc.include.is_some() => self.has_include(file, sc),
                _ => {
                    // nothing in here counts
                    self.files[file].1.push_str("#ifdef NEVER\n#define NAME 1\n#pragma hemtt suppress pw3_padded_arg config\nFUN( 1)\n#endif\n");
                    sc.end_line();
                }
            }
        }
    }
}

fn warnings(d: &mut D, c: &mut Case) -> R {
    let mut w = Warn::default();
    let main = if d.chance(1, 4) { "Config.cpp" } else { *d.pick(&["main.hpp", "config.cpp", "inc.cpp"]) };
    w.files.push((main.into(), "#define FUN(x) x\n#define TWO(x,y) x y\n#define ARR_3(x,y,z) [x, y, z]\n#define TRACE_1(x,y) x\n#define ERROR_MSG(x) x\n#define XARR_1(x) x\n#define arr_1(x) x\n#define FORMAT_2(x,y,z) x\n#define LARR(x) x\n".into()));
    let mut sc = Scopes::default();
    w.file(d, 0, &mut sc, 0);
    if main == "Config.cpp" {
        w.want.push(("PW2", String::new(), String::new(), 0));
    }
    let all = show(&w.files);
    c.input(&all);
    c.nontrivial(!w.want.is_empty());
    for x in &w.want {
        c.note(x.0);
    }
    c.note_if(w.files.len() > 1, "included");
    c.note_if(w.has_config, "config scope");
    let root = ws::memory(&w.files);
    let r = hemtt_preprocessor::Processor::run(&root.join(main).expect("join"));
    let p = match r {
        Ok(p) => p,
        Err((_, e)) => fail!("rejected", "{:?}\n{all}", e.get_code().map(|c| c.message())),
    };
    ensure!(!p.as_str().contains("BAD"), "has_include", "__has_include is not false\n{all}");
    // what the game would decide differently can not be shipped binarized
    ensure!(p.no_rapify() == w.asked_include, "rapify", "__has_include used: {}, left unbinarized: {}\n{all}", w.asked_include, p.no_rapify());
    c.note_if(w.asked_include, "unbinarized");
    let mut got = Vec::new();
    for x in p.warnings() {
        let span = x.diagnostic().and_then(|d| {
            let _ = d.to_string(&hemtt_workspace::reporting::WorkspaceFiles::new());
            let l = d.labels.iter().find(|l| l.to_codespan().style == codespan_reporting::diagnostic::LabelStyle::Primary)?;
            Some((l.file().as_str().trim_start_matches('/').to_string(), l.to_codespan().range))
        });
        match span {
            Some((f, s)) => got.push((x.ident(), f.clone(), w.files.iter().find(|y| y.0 == f).and_then(|y| y.1.get(s.clone())).unwrap_or("?").to_string(), s.start)),
            None => got.push((x.ident(), String::new(), String::new(), 0)),
        }
        ensure!(x.severity() == hemtt_workspace::reporting::Severity::Warning, "severity", "{} is {:?}", x.ident(), x.severity());
    }
    let mut want = w.want.clone();
    want.sort();
    got.sort();
    let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
    let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
    ensure!(missing.is_empty(), "missing", "not reported: {missing:?}, reported besides: {extra:?}\n{all}");
    ensure!(extra.is_empty(), "extra", "reported without reason: {extra:?}\n{all}");
    ensure!(got.len() == want.len(), "count", "expected {want:?}, got {got:?}\n{all}");
    Ok(())
}

/// Any text, in one to three files that include each other.
fn any_text(d: &mut D, c: &mut Case) -> R {
    const TOK: &[&str] = &[
        "#", "##", "#define ", "#define", "#undef ", "#ifdef ", "#ifndef ", "#if ", "#else", "#endif", "#include ", "#include \"main.hpp\"", "#include \"a.hpp\"", "#include <a.hpp>",
        "#include \"b.hpp\"", "#pragma ", "#pragma hemtt ", "suppress ", "flag ", "pw3_padded_arg", "file", "hemtt ", "A", "B", "FOO", "x", "y", "(", ")", "()", "(x)", "(x,y)", ",", "\"", "'", "\"a\"", "'b'", "<", ">",
        "==", "!=", "<=", ">=", "=", "1", "0", "12", "-1", "1.5", "\\", "\\\n", "\n", "\n", "\n", "\r\n", "\r", " ", " ", "\t", "//", "/*", "*/", "// c\n", "/* c */", "é", "漢", "😀", "\u{feff}", "\u{a0}", "\0",
        "__LINE__", "__FILE__", "__COUNTER__", "__COUNTER_RESET__", "__EVAL", "__EVAL(1)", "__EXEC(x)", "__has_include", "__has_include(\"a.hpp\")", "__RAND_INT8__", "__DAY__", "__ARMA__", ";", "{", "}", "[", "]", "+", "*", "/", "%", "&", "|", "^", "!", "@", "$", "~", "`", "?", ":", ".",
        "DeleteMe", "#define A B\n", "#define B A\n", "#define FOO(x,y) #x##y\n", "#define x\n", "#define y y\n", "A(", "FOO(", "FOO(1,2)", "B(A)", "#x", "x##y", "\"\"", "'\"'", "enum", "#define é 1\n", "#define éA x\n", "#define 漢(x) x\n", "é(", "éA", "漢(1)", "#if 1\n", "#if B\n", "#if é == 1\n", "#if A == 1\n", "#ifdef A\n", "#endif\n", "#else\n",
    ];
    let n = d.weighted(&[4, 2, 1]) + 1;
    let mut files = Vec::new();
    for name in &["main.hpp", "a.hpp", "b.hpp"][..n] {
        let text = match d.weighted(&[5, 2, 1]) {
            0 => {
                let n = d.usize(0, 30);
                (0..n).map(|_| *d.pick(TOK)).collect::<String>()
            }
            1 => {
                // a valid file with a few characters changed
                let n = d.usize(0, 8);
                let mut t: Vec<char> = quiet(d, n).chars().collect();
                let (_, before, fault, _) = *d.pick(FAULTS);
                if d.bool() {
                    t.extend(format!("{before}\n{}\n", fault.replace(['«', '»'], "")).chars());
                }
                for _ in 0..d.range(0, 4) {
                    let i = d.usize(0, t.len());
                    match d.below(3) {
                        0 if i < t.len() => {
                            t.remove(i);
                        }
                        1 if i < t.len() => {
                            let j = d.usize(i, t.len() - 1);
                            t.drain(i..=j);
                        }
                        _ => {
                            let w: Vec<char> = d.pick(TOK).chars().collect();
                            t.splice(i..i, w);
                        }
                    }
                }
                t.into_iter().collect()
            }
            _ => d.string_of(&['a', '#', '(', ')', '"', '\'', '\\', ' ', '\n', '1', '/', '*', ',', 'é', '😀', '_', '\r', '\t', '<', '>', '='], 0, 40),
        };
        files.push(((*name).to_string(), text));
    }
    let all = show(&files);
    c.input(&all);
    c.nontrivial(files[0].1.chars().filter(|c| !c.is_whitespace()).count() >= 2);
    let root = ws::memory(&files);
    let r = hemtt_preprocessor::Processor::run(&root.join("main.hpp").expect("join"));
    let none = hemtt_workspace::reporting::WorkspaceFiles::new();
    match r {
        Ok(p) => {
            c.note("accepted");
            ws::idents(p.warnings());
            let out = p.as_str();
            let total = out.chars().count();
            let mut at = 0;
            for map in p.raw_mappings().iter().filter(|m| !m.was_macro()) {
                ensure!(map.processed_start().offset() == at, "gap", "a token starts at {} after {at}\n{all}", map.processed_start().offset());
                at += map.token().to_source().chars().count();
                let text = &p.sources()[map.source()].1;
                ensure!(text.get(map.original_start()..map.original_end()).is_some(), "outside", "a token is from {}..{} of a text of {} bytes\n{all}", map.original_start(), map.original_end(), text.len());
            }
            ensure!(at == total, "gap", "the tokens end at {at} of {total}\n{all}");
            for off in 0..total {
                ensure!(p.mapping(off).is_some(), "unmapped", "the character {off} of {out:?} leads nowhere\n{all}");
            }
        }
        Err((_, e)) => {
            let Some(code) = e.get_code() else {
                c.note("error without code");
                ensure!(!format!("{e:?}").is_empty(), "silent", "{all}");
                return Ok(());
            };
            c.note(format!("rejected {}", code.ident()));
            let Some(diag) = code.diagnostic() else { fail!("no diagnostic", "{}\n{all}", code.ident()) };
            let _ = diag.to_string(&none);
            for l in &diag.labels {
                let f = l.file().as_str().trim_start_matches('/').to_string();
                let Some((_, text)) = files.iter().find(|x| x.0 == f) else { fail!("wrong file", "{} marks {f}\n{all}", code.ident()) };
                let text = text.replace('\r', "");
                ensure!(text.get(l.to_codespan().range).is_some(), "outside", "{} marks {:?} of a text of {} bytes\n{all}", code.ident(), l.to_codespan().range, text.len());
            }
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P01",
            level: "exploration",
            rule: "a macro is expanded inside the expansion or the arguments of another",
            facets: vec![Facet::new("expand", 60_000, 3_000_000, expand), Facet::new("deep", 1_500, 40_000, deep), Facet::new("many", 40, 2_000, many)],
            probes: vec![],
            assumptions: &[],
        },
        Property {
            id: "P02",
            level: "exploration",
            rule: "the program has a condition or an include",
            facets: vec![Facet::new("control", 40_000, 2_000_000, control), Facet::new("long", 1_500, 40_000, long)],
            probes: vec![],
            assumptions: &[],
        },
        Property {
            id: "P03",
            level: "exploration",
            rule: "text from a macro or from an included file is looked up",
            facets: vec![Facet::new("mapping", 60_000, 2_000_000, mapping), Facet::new("reports", 15_000, 500_000, labels)],
            probes: vec![],
            assumptions: &[],
        },
        Property {
            id: "P04",
            level: "exploration",
            rule: "one fault is added to a valid file, or a warning is due",
            facets: vec![Facet::new("faults", 40_000, 1_000_000, faults), Facet::new("warnings", 40_000, 1_000_000, warnings)],
            probes: vec![],
            assumptions: &[],
        },
        Property {
            id: "P05",
            level: "exploration",
            rule: "the main file has at least two visible characters",
            facets: vec![Facet::new("any text", 80_000, 10_000_000, any_text).hang(20)],
            probes: vec![],
            assumptions: &[],
        },
    ]
}
