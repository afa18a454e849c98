//! Stringtables: reading, sorting and writing them, totals, the sorting lint.
use crate::project::Folder;
use hemtt_common::config::ProjectConfig;
use hemtt_stringtable::analyze::lint_all;
use hemtt_stringtable::{Key, Package, Project, Totals};
use hemtt_workspace::reporting::Severity;
use hemtt_workspace::Workspace;
use std::io::BufReader;
use vpc::{ensure, fail, Case, Facet, Property, D, R};

type Get = fn(&Key) -> Option<&str>;
type Count = fn(&Totals) -> u32;
/// In the order of the documentation
const LANGUAGES: [(&str, Get, Count); 25] = [
    ("Original", Key::original, Totals::original),
    ("English", Key::english, Totals::english),
    ("Czech", Key::czech, Totals::czech),
    ("French", Key::french, Totals::french),
    ("Spanish", Key::spanish, Totals::spanish),
    ("Italian", Key::italian, Totals::italian),
    ("Polish", Key::polish, Totals::polish),
    ("Portuguese", Key::portuguese, Totals::portuguese),
    ("Russian", Key::russian, Totals::russian),
    ("German", Key::german, Totals::german),
    ("Korean", Key::korean, Totals::korean),
    ("Japanese", Key::japanese, Totals::japanese),
    ("Chinese", Key::chinese, Totals::chinese),
    ("Chinesesimp", Key::chinesesimp, Totals::chinesesimp),
    ("Turkish", Key::turkish, Totals::turkish),
    ("Swedish", Key::swedish, Totals::swedish),
    ("Slovak", Key::slovak, Totals::slovak),
    ("Serbocroatian", Key::serbocroatian, Totals::serbocroatian),
    ("Norwegian", Key::norwegian, Totals::norwegian),
    ("Icelandic", Key::icelandic, Totals::icelandic),
    ("Hungarian", Key::hungarian, Totals::hungarian),
    ("Greek", Key::greek, Totals::greek),
    ("Finnish", Key::finnish, Totals::finnish),
    ("Dutch", Key::dutch, Totals::dutch),
    ("", |_| None, |_| 0),
];
const LANGS: usize = LANGUAGES.len() - 1;

/// An element with the comments in front of it and at its end. `text` and `name` are what is meant,
/// not how it is written.
#[derive(Clone, Debug, Default, PartialEq)]
struct Node {
    tag: String,
    name: String,
    text: String,
    before: Vec<String>,
    nodes: Vec<Node>,
    end: Vec<String>,
}

// ---- generation ----

fn comment(d: &mut D) -> String {
    let n = d.below(1000);
    (*d.pick(&["<!-- c# -->", "<!--c#-->", "<!-- <English>old &amp; new #</English> -->", "<!-- <Key ID=\"a\">\n            <English>x#</English>\n\n</Key> -->", "<!-- a > b & é # -->", "<!--\n#\n-->", "<!-- </Key> # -->", "<!-- - # -->"])).replace('#', &n.to_string())
}
fn comments(d: &mut D) -> Vec<String> {
    if d.chance(1, 5) {
        let n = d.usize(1, 3);
        (0..n).map(|_| comment(d)).collect()
    } else {
        vec![]
    }
}
fn text(d: &mut D) -> String {
    let parts = ["Hello", "world", "é", "日本", "<t>", "</t>", "&", "a > b", "\"q\"", "'", "%1", "&amp;", "\\n", "]", ";", "x=1", "-", "<br/>", "\n   ", "  ", "\u{a0}"];
    let n = match d.weighted(&[1, 12]) {
        0 => 0,
        _ => d.usize(1, 5),
    };
    let t: String = (0..n).map(|_| *d.pick(&parts)).collect();
    t.trim_matches(|c: char| " \n".contains(c)).to_string()
}
fn name(d: &mut D) -> String {
    let mut n = (*d.pick(&["a", "B", "b", "STR_x", "STR_y", "STR_X", "ab", "main", "é", "z9"])).to_string();
    if d.chance(1, 8) {
        n += d.pick(&["&", "<", ">", "\"", "'", "&amp;", " x"]);
    }
    n
}
/// A name that is not used yet
fn fresh(d: &mut D, used: &mut Vec<String>, dup: bool) -> String {
    let mut n = name(d);
    if !(dup && d.chance(1, 6)) {
        while used.contains(&n) {
            n.push('_');
        }
    }
    used.push(n.clone());
    n
}
fn key(d: &mut D, used: &mut Vec<String>) -> Node {
    let mut langs: Vec<usize> = match d.weighted(&[6, 1]) {
        0 => d.vec(5, |d| d.usize(0, LANGS - 1)),
        _ => (0..LANGS).collect(),
    };
    d.shuffle(&mut langs);
    let mut seen = std::collections::BTreeSet::new();
    let nodes = langs
        .into_iter()
        .filter(|l| seen.insert(*l))
        .map(|l| Node { tag: LANGUAGES[l].0.into(), text: text(d), before: comments(d), ..Node::default() })
        .collect();
    Node { tag: "Key".into(), name: fresh(d, used, true), nodes, before: comments(d), end: comments(d), ..Node::default() }
}
fn package(d: &mut D, tag: &str, depth: usize, used: &mut Vec<String>) -> Node {
    let mut ids = vec![];
    let keys = if d.chance(1, 60) {
        // as many as real addons have
        (0..d.usize(20, 90))
            .map(|_| {
                let nodes = d.vec(2, |d| d.usize(0, LANGS - 1)).into_iter().collect::<std::collections::BTreeSet<_>>();
                let nodes = nodes.into_iter().map(|l| Node { tag: LANGUAGES[l].0.into(), text: text(d), ..Node::default() }).collect();
                let before = if d.chance(1, 10) { comments(d) } else { vec![] };
                Node { tag: "Key".into(), name: fresh(d, &mut ids, true), nodes, before, ..Node::default() }
            })
            .collect()
    } else {
        d.vec(5, |d| key(d, &mut ids))
    };
    let mut names = vec![];
    let containers = if depth > 0 && d.chance(1, 3) { d.vec(3, |d| package(d, "Container", depth - 1, &mut names)) } else { vec![] };
    let nodes = if d.chance(1, 6) { [containers, keys].concat() } else { [keys, containers].concat() };
    Node { tag: tag.into(), name: fresh(d, used, true), nodes, before: comments(d), end: comments(d), ..Node::default() }
}
fn table(d: &mut D) -> Node {
    let mut names = vec![];
    let nodes = if d.chance(1, 20) {
        // containers of containers
        let mut n = package(d, "Container", 0, &mut vec![]);
        for _ in 0..d.usize(2, 8) {
            let mut outer = package(d, "Container", 1, &mut vec![]);
            if d.bool() {
                outer.nodes.clear();
            }
            outer.nodes.retain(|o| o.tag == "Key" || o.name != n.name);
            let at = outer.nodes.iter().rposition(|o| o.tag == "Container").map_or(outer.nodes.len(), |i| i + 1);
            outer.nodes.insert(at, n);
            n = outer;
        }
        n.tag = "Package".into();
        vec![n]
    } else {
        d.vec_between(1, 4, |d| package(d, "Package", 2, &mut names))
    };
    Node { tag: "Project".into(), name: name(d), nodes, before: comments(d), end: comments(d), ..Node::default() }
}

// ---- writing the input ----

fn entity(d: &mut D, c: char, quote: Option<char>) -> String {
    let named = match c {
        '&' => "&amp;",
        '<' => "&lt;",
        '>' => "&gt;",
        '"' => "&quot;",
        '\'' => "&apos;",
        _ => "",
    };
    let must = c == '&' || c == '<' || Some(c) == quote;
    if !named.is_empty() && (must || d.chance(1, 2)) {
        return if d.chance(1, 8) { format!("&#{};", c as u32) } else { named.to_string() };
    }
    if !c.is_ascii() && d.chance(1, 4) {
        return format!("&#x{:X};", c as u32);
    }
    c.to_string()
}
struct Out<'a> {
    s: String,
    eol: &'a str,
    /// everything on lines of its own
    tidy: bool,
}
impl Out<'_> {
    fn space(&mut self, d: &mut D, depth: usize) {
        let w = if self.tidy { 0 } else { d.weighted(&[12, 3, 3, 1]) };
        match w {
            0 => {
                self.s.push_str(self.eol);
                self.s.push_str(&" ".repeat(depth * 4));
            }
            1 => {}
            2 => {
                self.s.push_str(self.eol);
                self.s.push_str(self.eol);
                self.s.push('\t');
            }
            _ => self.s.push(' '),
        }
    }
    fn comments(&mut self, d: &mut D, c: &[String], depth: usize) {
        for c in c {
            self.space(d, depth);
            self.s.push_str(&c.replace('\n', self.eol));
        }
        self.space(d, depth);
    }
    fn content(&mut self, d: &mut D, t: &str) {
        // parts can be in CDATA, but not with a space at the border
        let cdata = !t.contains("]") && d.chance(1, 8);
        if cdata {
            let border = |i: usize| !t.is_empty() && t.is_char_boundary(i) && !t[..i].ends_with([' ', '\n']) && !t[i..].starts_with([' ', '\n']);
            let at: Vec<usize> = (0..=t.len()).filter(|i| border(*i)).collect();
            let (mut a, mut b) = (0, t.len());
            if !at.is_empty() && d.bool() {
                a = *d.pick(&at);
                b = *d.pick(&at);
            }
            let (a, b) = (a.min(b), a.max(b));
            for c in t[..a].chars() {
                self.s.push_str(&entity(d, c, None));
            }
            self.s.push_str(&format!("<![CDATA[{}]]>", t[a..b].replace('\n', self.eol)));
            for c in t[b..].chars() {
                self.s.push_str(&entity(d, c, None));
            }
            return;
        }
        for c in t.chars() {
            if c == '\n' {
                self.s.push_str(self.eol);
            } else {
                let e = entity(d, c, None);
                self.s.push_str(&e);
            }
        }
    }
    fn node(&mut self, d: &mut D, n: &Node, depth: usize) {
        self.comments(d, &n.before, depth);
        let language = !["Project", "Package", "Container", "Key"].contains(&n.tag.as_str());
        let tag = match d.below(12) {
            1 if language => n.tag.to_lowercase(),
            2 if language => n.tag.to_uppercase(),
            _ => n.tag.clone(),
        };
        self.s.push('<');
        self.s.push_str(&tag);
        if !language {
            let q = if d.chance(1, 6) { '\'' } else { '"' };
            let v: String = n.name.chars().map(|c| entity(d, c, Some(q))).collect();
            let sp = *d.pick(&[" ", " ", " ", " ", "  ", "\t", self.eol]);
            let eq = *d.pick(&["=", "=", "=", "=", " = "]);
            let attr = if n.tag == "Key" { "ID" } else { "name" };
            self.s.push_str(&format!("{sp}{attr}{eq}{q}{v}{q}"));
        }
        if d.chance(1, 10) {
            self.s.push(' ');
        }
        if n.nodes.is_empty() && n.end.is_empty() && n.text.is_empty() && d.bool() {
            self.s.push_str("/>");
            return;
        }
        self.s.push('>');
        if language {
            self.content(d, &n.text);
        } else {
            for n in &n.nodes {
                self.node(d, n, depth + 1);
            }
            self.comments(d, &n.end, depth);
        }
        self.s.push_str(&format!("</{tag}{}>", if d.chance(1, 20) { " " } else { "" }));
    }
}
fn write(d: &mut D, t: &Node, after: &[String]) -> String {
    let eol = if d.chance(1, 8) { "\r\n" } else { "\n" };
    let mut o = Out { s: String::new(), eol, tidy: d.bool() };
    let decl = *d.pick(&["<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>", ""]);
    o.s.push_str(decl);
    o.node(d, t, 0);
    o.comments(d, after, 0);
    o.s.trim_start().to_string()
}

// ---- reading the output ----

struct In<'a> {
    s: &'a str,
}
fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let j = rest[i..].find(';').ok_or_else(|| format!("bare & in {s:?}"))?;
        let e = &rest[i + 1..i + j];
        out.push(match e {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = e.strip_prefix('#').ok_or_else(|| format!("entity &{e}; in {s:?}"))?;
                let n = n.strip_prefix('x').map_or_else(|| n.parse().ok(), |h| u32::from_str_radix(h, 16).ok());
                n.and_then(char::from_u32).ok_or_else(|| format!("entity &{e}; in {s:?}"))?
            }
        });
        rest = &rest[i + j + 1..];
    }
    out.push_str(rest);
    Ok(out)
}
impl In<'_> {
    /// Comments, until something else begins
    fn comments(&mut self) -> Result<Vec<String>, String> {
        let mut v = vec![];
        loop {
            self.s = self.s.trim_start_matches([' ', '\n', '\t', '\r']);
            if !self.s.starts_with("<!--") {
                return Ok(v);
            }
            let e = self.s.find("-->").ok_or("open comment")? + 3;
            v.push(self.s[..e].to_string());
            self.s = &self.s[e..];
        }
    }
    /// The element that begins here
    fn node(&mut self, before: Vec<String>) -> Result<Node, String> {
        let e = self.s.find('>').ok_or("open tag")?;
        let head = self.s[..e].strip_prefix('<').ok_or_else(|| format!("text instead of a tag: {:.60?}", self.s))?;
        self.s = &self.s[e + 1..];
        let (tag, attr) = head.split_once(' ').unwrap_or((head, ""));
        let mut n = Node { tag: tag.to_string(), before, ..Node::default() };
        let what = if tag == "Key" { "ID" } else { "name" };
        if ["Project", "Package", "Container", "Key"].contains(&tag) {
            let v = attr.strip_prefix(what).and_then(|v| v.strip_prefix("=\"")).and_then(|v| v.strip_suffix('"')).filter(|v| !v.contains(['"', '<'])).ok_or_else(|| format!("attribute {attr:?}"))?;
            n.name = unescape(v)?;
            loop {
                let c = self.comments()?;
                if let Some(rest) = self.s.strip_prefix(&format!("</{tag}>")) {
                    self.s = rest;
                    n.end = c;
                    return Ok(n);
                }
                let child = self.node(c)?;
                n.nodes.push(child);
            }
        }
        let e = self.s.find('<').ok_or("open element")?;
        n.text = unescape(&self.s[..e])?;
        self.s = self.s[e..].strip_prefix(&format!("</{tag}>")).ok_or_else(|| format!("not the end of {tag}: {:.60?}", &self.s[e..]))?;
        Ok(n)
    }
}
fn parse(s: &str) -> Result<(Node, Vec<String>), String> {
    let s = s.strip_prefix("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n").ok_or("no declaration")?;
    let mut i = In { s };
    let before = i.comments()?;
    let n = i.node(before)?;
    let after = i.comments()?;
    if !i.s.is_empty() {
        return Err(format!("more after the project: {:?}", i.s));
    }
    Ok((n, after))
}

// ---- the model ----

fn raw_order(n: &Node) -> String {
    n.name.clone()
}
/// What is written: languages in their order, keys before containers, sorted if asked for
fn arranged(n: &Node, sort: bool) -> Node {
    let mut n = n.clone();
    n.nodes = n.nodes.iter().map(|n| arranged(n, sort)).collect();
    if n.tag == "Key" {
        n.nodes.sort_by_key(|l| LANGUAGES.iter().position(|x| x.0 == l.tag));
    } else if sort {
        n.nodes.sort_by_key(raw_order);
    }
    n.nodes.sort_by_key(|n| n.tag == "Container");
    n
}
/// Is the order of the names the same however they are written?
fn order_is_clear(n: &Node) -> bool {
    n.nodes.iter().all(order_is_clear)
        && (n.tag == "Key" || {
            let v: Vec<&String> = n.nodes.iter().map(|n| &n.name).collect();
            let odd = |s: &str| s.find(|c: char| "&<>\"'".contains(c) || !c.is_ascii());
            v.iter().all(|a| v.iter().all(|b| a == b || odd(a).is_none_or(|i| !b.starts_with(&a[..i]))))
                && v.iter().enumerate().all(|(i, a)| odd(a).is_none() || !v[i + 1..].contains(a))
        })
}
fn count(p: &Node, t: &mut [u32; LANGS + 1]) {
    for n in &p.nodes {
        if n.tag == "Key" {
            t[LANGS] += 1;
            for l in &n.nodes {
                t[LANGUAGES.iter().position(|x| x.0 == l.tag).unwrap_or(LANGS)] += 1;
            }
        } else {
            count(n, t);
        }
    }
}

fn totals_match(want: &Node, got: &Totals) -> R {
    let mut t = [0; LANGS + 1];
    count(want, &mut t);
    ensure!(got.total() == t[LANGS], "total", "{} keys instead of {} in {}", got.total(), t[LANGS], want.name);
    for (i, l) in LANGUAGES[..LANGS].iter().enumerate() {
        ensure!(l.2(got) == t[i], "totals", "{}: {} instead of {} in {}", l.0, l.2(got), t[i], want.name);
    }
    Ok(())
}
fn means(raw: &str, want: &str) -> bool {
    unescape(raw).is_ok_and(|r| r.replace("\r\n", "\n") == want)
}
fn package_matches(want: &Node, got: &Package) -> R {
    ensure!(means(got.name(), &want.name), "name", "{:?} instead of {:?}", got.name(), want.name);
    totals_match(want, &got.totals())?;
    let keys: Vec<&Node> = want.nodes.iter().filter(|n| n.tag == "Key").collect();
    ensure!(keys.len() == got.keys().len(), "keys", "{} keys instead of {}", got.keys().len(), keys.len());
    for (w, g) in keys.iter().zip(got.keys()) {
        ensure!(means(g.id(), &w.name), "id", "{:?} instead of {:?}", g.id(), w.name);
        for l in &LANGUAGES[..LANGS] {
            let w = w.nodes.iter().find(|n| n.tag == l.0).map(|n| n.text.as_str());
            let same = match (w, l.1(g)) {
                (None, None) => true,
                (Some(w), Some(g)) => means(g, w),
                _ => false,
            };
            ensure!(same, "string", "{} of {}: {:?} instead of {w:?}", l.0, g.id(), l.1(g));
        }
    }
    let containers: Vec<&Node> = want.nodes.iter().filter(|n| n.tag == "Container").collect();
    ensure!(containers.len() == got.containers().len(), "containers", "{} containers instead of {}", got.containers().len(), containers.len());
    for (w, g) in containers.iter().zip(got.containers()) {
        package_matches(w, g)?;
    }
    Ok(())
}
fn project_matches(want: &Node, got: &Project) -> R {
    ensure!(means(got.name(), &want.name), "name", "{:?} instead of {:?}", got.name(), want.name);
    ensure!(want.nodes.len() == got.packages().len(), "packages", "{} packages instead of {}", got.packages().len(), want.nodes.len());
    for (w, g) in want.nodes.iter().zip(got.packages()) {
        package_matches(w, g)?;
    }
    Ok(())
}
fn read(s: &str) -> Result<Project, String> {
    Project::from_reader(BufReader::new(s.as_bytes())).map_err(|e| e.to_string())
}
fn written(p: &Project) -> Result<String, String> {
    let mut s = String::new();
    p.to_writer(&mut s).map_err(|e| e.to_string())?;
    Ok(s)
}
fn first_difference(path: &str, a: &Node, b: &Node) -> String {
    let path = format!("{path}/{}[{}]", a.tag, a.name);
    if a.nodes.len() == b.nodes.len() {
        for (x, y) in a.nodes.iter().zip(&b.nodes) {
            if x != y {
                return first_difference(&path, x, y);
            }
        }
    }
    let strip = |n: &Node| Node { nodes: n.nodes.iter().map(|n| Node { tag: n.tag.clone(), name: n.name.clone(), ..Node::default() }).collect(), ..n.clone() };
    format!("{path}: {:?}\ninstead of {:?}", strip(b), strip(a))
}

fn round(d: &mut D, c: &mut Case) -> R {
    let mut t = table(d);
    let after = comments(d);
    if !order_is_clear(&t) {
        // the order of names goes by how they are written
        fn plain(n: &mut Node) {
            n.name = n.name.replace(['&', '<', '>', '"', '\''], "").replace("é", "e");
            n.nodes.iter_mut().for_each(plain);
        }
        plain(&mut t);
    }
    let src = write(d, &t, &after);
    c.input(&src);
    let sort = d.bool();
    c.note_if(src.contains("<!--"), "comments");
    c.note_if(src.contains("CDATA"), "CDATA");
    c.note_if(src.contains("Container"), "containers");
    c.note_if(src.contains("\r\n"), "CRLF");
    c.note(if sort { "sorted" } else { "languages only" });
    let keys = src.matches("<Key").count();
    c.nontrivial(keys >= 2);
    let mut p = match read(&src) {
        Ok(p) => p,
        Err(e) => fail!("rejected", "{e}"),
    };
    let file = arranged(&t, false);
    let unsorted = Node { nodes: t.nodes.clone(), ..file.clone() };
    project_matches(&unsorted, &p)?;
    if sort {
        p.sort();
    }
    let want = arranged(&t, sort);
    project_matches(&want, &p)?;
    let out = match written(&p) {
        Ok(o) => o,
        Err(e) => fail!("write", "{e}"),
    };
    let (got, end) = match parse(&out) {
        Ok(x) => x,
        Err(e) => fail!("invalid output", "{e}\n{out}"),
    };
    ensure!(end == after, "comments at the end", "{end:?} instead of {after:?}");
    ensure!(got == want, "output", "{}\n{out}", first_difference("", &want, &got));
    // form: one element per line
    for l in out.lines().filter(|l| !l.contains("<!--")) {
        let l = l.trim_start();
        ensure!(!l.starts_with("<Package") || l.matches('<').count() == 1 || l.ends_with("</Package>"), "form", "{l}");
    }
    // again
    let mut q = match read(&out) {
        Ok(p) => p,
        Err(e) => fail!("own output rejected", "{e}\n{out}"),
    };
    let again = written(&q).unwrap_or_default();
    ensure!(again == out, "not stable", "{again}\ninstead of\n{out}");
    if sort {
        q.sort();
        ensure!(written(&q).unwrap_or_default() == out, "sort is not stable", "{out}");
    }
    Ok(())
}

// ---- the lint ----

/// Break one order; false if there is nothing to break
fn disorder(d: &mut D, n: &mut Node, keys: bool) -> bool {
    let mut order: Vec<usize> = (0..n.nodes.len()).collect();
    d.shuffle(&mut order);
    if d.bool() {
        for i in &order {
            if disorder(d, &mut n.nodes[*i], keys) {
                return true;
            }
        }
    }
    let pairs: Vec<usize> = (1..n.nodes.len()).filter(|i| n.nodes[*i].tag == n.nodes[i - 1].tag && n.nodes[*i].name != n.nodes[i - 1].name).collect();
    if n.tag == "Key" {
        if n.nodes.len() > 1 {
            let i = d.usize(1, n.nodes.len() - 1);
            n.nodes.swap(i - 1, i);
            return true;
        }
        return false;
    }
    if keys && !pairs.is_empty() {
        let i = *d.pick(&pairs);
        n.nodes.swap(i - 1, i);
        return true;
    }
    order.iter().any(|i| disorder(d, &mut n.nodes[*i], keys))
}
fn lints(d: &mut D, c: &mut Case) -> R {
    let n = match d.weighted(&[8, 4, 1]) {
        0 => d.usize(1, 4),
        1 => d.usize(3, 6),
        _ => 0,
    };
    let enabled = !d.chance(1, 6);
    let severity = match d.weighted(&[3, 2, 2, 1]) {
        0 => None,
        1 => Some(Severity::Warning),
        2 => Some(Severity::Error),
        _ => Some(Severity::Help),
    };
    let only_lang = [None, Some(false), Some(true)][d.weighted(&[3, 1, 3])];
    let mut setting = String::new();
    if !enabled {
        setting += "enabled = false\n";
    } else if d.bool() {
        setting += "enabled = true\n";
    }
    if let Some(s) = severity {
        setting += &format!("severity = \"{s:?}\"\n");
    }
    if let Some(o) = only_lang {
        setting += &format!("options.only-lang = {o}\n");
    }
    let dir = Folder::new();
    dir.put("lints.toml", if setting.is_empty() { String::new() } else { format!("[stringtables.sorted]\n{setting}") }.as_str());
    dir.put("project.toml", "name = \"x\"\nprefix = \"x\"\nmainprefix = \"z\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\n");
    let project = match ProjectConfig::from_file(&dir.0.join("project.toml")) {
        Ok(p) => p,
        Err(e) => fail!("settings", "{e}\n{setting}"),
    };
    let w = match Workspace::builder().memory().finish(None, false, &hemtt_common::config::PDriveOption::Disallow) {
        Ok(w) => w,
        Err(e) => fail!("workspace", "{e}"),
    };
    let only = only_lang == Some(true);
    let mut tables = vec![];
    let mut unsorted = vec![];
    let mut log = setting.clone();
    for i in 0..n {
        let mut names = vec![];
        let node = Node { tag: "Project".into(), name: "x".into(), nodes: d.vec_between(1, 3, |d| package(d, "Package", 1, &mut names)), before: comments(d), end: comments(d), ..Node::default() };
        if !order_is_clear(&node) {
            continue;
        }
        // as it has to be, then damaged
        let src = write(d, &node, &[]);
        let Ok(mut p) = read(&src) else {
            fail!("rejected", "{src}");
        };
        let sorted = d.bool();
        if sorted {
            p.sort();
        }
        let Ok(mut text) = written(&p) else {
            fail!("write", "{src}");
        };
        let mut bad = !only && arranged(&node, sorted) != arranged(&node, true);
        match d.weighted(&[4, 3, 1, 1]) {
            0 => {}
            1 => {
                let mut m = arranged(&node, sorted);
                if disorder(d, &mut m, !only) {
                    let mut o = Out { s: "<?xml version=\"1.0\" encoding=\"utf-8\"?>".into(), eol: "\n", tidy: true };
                    o.node(d, &m, 0);
                    text = o.s;
                    bad = true;
                    // two damages could repair each other
                    if !only && m == arranged(&m, true) {
                        continue;
                    }
                }
            }
            2 => {
                let old = text.clone();
                text = match d.below(4) {
                    0 => text.replacen("\n    <Package", "\n\t<Package", 1),
                    1 => text.replacen(">\n", "> \n", 1),
                    2 => text.replacen("\n    <Package", "\n\n    <Package", 1),
                    _ => text.replacen(">\n", ">\n  ", 1),
                };
                bad |= text != old;
            }
            _ => {
                let t = format!("{}{}{}", d.pick(&["", "\n", "  "]), text.trim_end(), d.pick(&["", "\n", "\n\n"]));
                text = t;
            }
        }
        let Ok(p) = read(&text) else {
            fail!("rejected", "{text}");
        };
        let path = match w.join(format!("{i}_stringtable.xml")) {
            Ok(p) => p,
            Err(e) => fail!("path", "{e}"),
        };
        if bad {
            unsorted.push(path.as_str().to_string());
        }
        log += &format!("--- {} {}\n{text}\n", path.as_str(), if bad { "unsorted" } else { "sorted" });
        tables.push((p, path, text));
    }
    c.input(&log);
    c.note(format!("{} unsorted", unsorted.len().min(5)));
    c.note_if(only, "only-lang");
    c.nontrivial(!tables.is_empty() && enabled);
    let codes = lint_all(&tables, Some(&project));
    let show: Vec<(String, Severity, String)> = codes.iter().map(|c| (c.ident().to_string(), c.severity(), c.message())).collect();
    if severity == Some(Severity::Help) {
        c.note("below the minimum");
        ensure!(show.len() == 1 && show[0].0 != "L-L01" && show[0].2.contains("sorted") && show[0].2.contains("severity"), "minimum severity", "{show:?}");
        return Ok(());
    }
    if !enabled || unsorted.is_empty() {
        ensure!(show.is_empty(), "reported", "{show:?} for {unsorted:?}, enabled {enabled}");
        return Ok(());
    }
    let want = severity.unwrap_or(Severity::Warning);
    ensure!(show.iter().all(|s| s.0 == "L-L01" && s.1 == want), "severity", "{show:?} instead of {want:?}");
    for code in &codes {
        let help = code.help().unwrap_or_default();
        ensure!(help.contains("--only-lang") == only, "help", "{help}");
        let Some(diag) = code.diagnostic() else {
            fail!("diagnostic", "none for {}", code.message());
        };
        ensure!(diag.severity == want && diag.message == code.message(), "diagnostic", "{:?} {}", diag.severity, diag.message);
    }
    if unsorted.len() > 3 {
        ensure!(show.len() == 1 && show[0].2.contains(&unsorted.len().to_string()), "summary", "{show:?} for {unsorted:?}");
        return Ok(());
    }
    ensure!(show.len() == unsorted.len(), "reports", "{show:?} for {unsorted:?}");
    for u in &unsorted {
        ensure!(show.iter().filter(|s| s.2.contains(&format!("`{u}`"))).count() == 1, "named", "{u} in {show:?}");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, facets| Property { id, level: "exploration", rule, facets, probes: vec![], assumptions: &[] };
    vec![
        p("T01", "a table with at least two keys", vec![Facet::new("round", 20_000, 1_000_000, round)]),
        p("T02", "at least one table and the lint is enabled", vec![Facet::new("lints", 8_000, 300_000, lints)]),
    ]
}
