//! What editors show of the commands in scripts.
use crate::client::Editor;
use std::path::PathBuf;
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

/// A word of the script: its place, its text, and the command it is, if it is one.
#[derive(Clone, Debug)]
struct Word {
    line: usize,
    start: usize,
    end: usize,
    text: String,
    command: bool,
}
#[derive(Default)]
struct Script {
    text: String,
    words: Vec<Word>,
    line: usize,
    column: usize,
    vars: usize,
    wild: bool,
}
impl Script {
    fn raw(&mut self, s: &str) {
        self.text.push_str(s);
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.column = 0;
            } else {
                self.column += c.len_utf16();
            }
        }
    }
    fn word(&mut self, s: &str, command: bool) {
        let start = self.column;
        self.raw(s);
        self.words.push(Word { line: self.line, start, end: self.column, text: s.into(), command });
    }
    fn gap(&mut self, d: &mut D) {
        let g = d.weighted(&[12, 2, 2, 1, 1, 1]);
        self.wild |= g >= 4;
        self.raw([" ", "  ", "\n    ", "\t", " /* count é */ ", " /* 😀 */ "][g]);
    }
    fn atom(&mut self, d: &mut D) {
        match d.below(6) {
            0 => self.word(&format!("{}", d.below(500)), false),
            1 => self.word(*d.pick(&["\"text\"", "\"count player\"", "\"é😀 hint\"", "'single'"]), false),
            2 => self.word(*d.pick(&["_unit", "_x", "my_global"]), false),
            3 => self.word(*d.pick(&["true", "false"]), false),
            _ => self.word(*d.pick(&["player", "objNull", "allUnits", "time", "PLAYER"]), true),
        }
    }
    fn expr(&mut self, d: &mut D, depth: u32) {
        match if depth == 0 { 0 } else { d.weighted(&[3, 3, 3, 2, 1, 1]) } {
            0 => self.atom(d),
            1 => {
                self.word(*d.pick(&["hint", "count", "toLower", "sqrt", "typeOf", "str", "TOUPPER"]), true);
                self.gap(d);
                self.operand(d, depth);
            }
            2 => {
                self.operand(d, depth);
                self.gap(d);
                self.word(*d.pick(&["select", "isEqualTo", "getVariable", "vectorAdd", "pushBack", "ISEQUALTO"]), true);
                self.gap(d);
                self.operand(d, depth);
            }
            3 => {
                self.raw("[");
                for k in 0..d.usize(1, 3) {
                    if k > 0 {
                        self.raw(", ");
                    }
                    self.expr(d, depth - 1);
                }
                self.raw("]");
            }
            4 => {
                self.raw("(");
                self.expr(d, depth - 1);
                self.raw(")");
            }
            _ => {
                self.operand(d, depth);
                self.raw(" ");
                self.word(*d.pick(&["+", "-", "*", "&&", "||", "==", ">="]), true);
                self.raw(" ");
                self.operand(d, depth);
            }
        }
    }
    /// In parentheses where it has parts.
    fn operand(&mut self, d: &mut D, depth: u32) {
        if depth > 1 && d.bool() {
            self.raw("(");
            self.expr(d, depth - 1);
            self.raw(")");
        } else {
            self.atom(d);
        }
    }
    fn statement(&mut self, d: &mut D, depth: u32) {
        match d.weighted(&[3, 2, 2, if depth > 0 { 3 } else { 0 }]) {
            0 => self.expr(d, 3),
            1 => {
                self.vars += 1;
                let v = format!("_v{}", self.vars);
                self.raw(&format!("private {v} = "));
                self.expr(d, 2);
            }
            2 => {
                self.vars += 1;
                self.raw(&format!("my_{} = ", self.vars));
                self.expr(d, 2);
            }
            _ => {
                self.word("if", true);
                self.raw(" (");
                self.expr(d, 1);
                self.raw(") ");
                self.word("then", true);
                self.raw(" {\n    ");
                self.body(d, depth - 1);
                self.raw("}");
            }
        }
        self.raw(";");
    }
    fn body(&mut self, d: &mut D, depth: u32) {
        for _ in 0..d.usize(1, 3) {
            self.statement(d, depth);
            let e = *d.pick(&["\n", "\n", " ", "\n\n// count player\n", " // é\n    "]);
            self.raw(e);
        }
    }
}

fn commands(d: &mut D, c: &mut Case) -> R {
    let mut editor: Option<(Editor, PathBuf)> = None;
    let root = vpc::scratch().join("editor");
    let _ = std::fs::remove_dir_all(&root);
    let folder = root.join(*d.pick(&["mod", "my mod", "möd"]));
    let dir = folder.join(*d.pick(&["addons/main", "addons/main/some functions"]));
    std::fs::create_dir_all(&dir).expect("scratch");
    std::fs::write(folder.join("addons/main/$PBOPREFIX$"), "z\\x\\main").expect("scratch");
    std::fs::write(folder.join("addons/main/script_component.hpp"), "#define SHORT 1\n#define LONG(x) x\n\nhint \"included\";\n").expect("scratch");
    let path = dir.join("fnc_test.sqf");
    for round in 0..d.usize(1, 3) {
        let mut s = Script::default();
        if d.chance(1, 3) {
            s.raw(*d.pick(&["#define SOME player\n", "#include \"\\z\\x\\main\\script_component.hpp\"\n", "/*\n * a comment\n * é\n */\n", "\n\n"]));
        }
        s.body(d, 2);
        if d.chance(1, 3) {
            // nothing behind the last statement
            let n = s.text.trim_end_matches([' ', '\n']).len();
            s.text.truncate(n);
        }
        c.input(&s.text);
        std::fs::write(&path, &s.text).expect("scratch");
        if let Some((e, _)) = &mut editor {
            e.saved(&path)?;
        } else {
            let mut e = Editor::start(&[folder.clone()])?;
            e.open(&path, &s.text)?;
            editor = Some((e, folder.clone()));
        }
        let (e, _) = editor.as_mut().expect("started");
        // a save has no answer, so the first word tells when it has been seen
        let Some(first) = s.words.iter().find(|w| w.command).cloned() else {
            continue;
        };
        let shown = |e: &mut Editor, w: &Word, at: usize| -> Result<Option<String>, Fail> {
            let v = e.hover(&path, w.line, at)?;
            let head = v["contents"].as_array().and_then(|a| a.first()).or_else(|| v.get("contents")).map(|x| x.as_str().map_or_else(|| x["value"].as_str().unwrap_or_default().to_string(), str::to_string));
            Ok(head.map(|h| h.lines().next().unwrap_or_default().trim_start_matches("## ").to_string()))
        };
        let same = |a: &Option<String>, w: &Word| a.as_ref().is_some_and(|a| a.eq_ignore_ascii_case(&w.text));
        let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
        loop {
            let got = shown(e, &first, first.start)?;
            if same(&got, &first) && (round == 0 || s.words.iter().filter(|w| w.command).all(|w| shown(e, w, w.start).is_ok_and(|g| same(&g, w)))) {
                break;
            }
            if std::time::Instant::now() > end {
                break;
            }
            e.settle(20)?;
        }
        for w in &s.words {
            for at in [w.start, w.end - 1, d.usize(w.start, w.end - 1)] {
                let got = shown(e, w, at)?;
                if w.command {
                    ensure!(same(&got, w), "command", "{got:?} is shown at {}:{at} for {}\n{}", w.line, w.text, s.text);
                } else {
                    ensure!(got.is_none(), "no command", "{got:?} is shown at {}:{at} for {}\n{}", w.line, w.text, s.text);
                }
            }
        }
        if d.chance(1, 6) {
            // many questions while the file is read again and again
            let mut asked = vec![];
            for _ in 0..d.usize(10, 60) {
                if d.chance(1, 4) {
                    e.saved(&path)?;
                }
                let w = d.pick(&s.words).clone();
                asked.push((e.ask_hover(&path, w.line, w.start)?, w));
            }
            for (id, w) in asked {
                let got = e.answer(id, "textDocument/hover")?;
                ensure!(!got.is_null() == w.command, "busy", "{got} is shown at {}:{} for {}\n{}", w.line, w.start, w.text, s.text);
            }
            c.note("busy");
        }
        c.nontrivial(s.words.iter().filter(|w| w.command).count() > 2);
        c.note_if(s.wild, "other letters");
        c.note_if(round > 0, "saved again");
    }
    drop(editor);
    let _ = std::fs::remove_dir_all(&root);
    Ok(())
}

// What the documentation of a command looks like: in the wiki's markup, and as it is shown.
#[derive(Default, Clone)]
struct Doc {
    wiki: String,
    shown: String,
}
impl Doc {
    fn both(&mut self, s: &str) {
        self.wiki.push_str(s);
        self.shown.push_str(s);
    }
    fn as_(&mut self, wiki: &str, shown: &str) {
        self.wiki.push_str(wiki);
        self.shown.push_str(shown);
    }
    fn add(&mut self, other: &Doc) {
        self.wiki.push_str(&other.wiki);
        self.shown.push_str(&other.shown);
    }
}
const SITE: &str = "https://community.bistudio.com/wiki/";
fn words(d: &mut D) -> String {
    let n = d.usize(1, 4);
    (0..n).map(|_| *d.pick(&["the", "unit", "é", "<br>", "'''bold'''", "x", "value.", "😀", "(see)", "a|b", "#1", "\"quoted\""])).collect::<Vec<_>>().join(*d.pick(&[" ", " ", "\n", "  "]))
}
fn page(d: &mut D) -> String {
    (*d.pick(&["west", "Object", "Array Unknown", "Position#PositionASL", ":Category:Scripting Commands", "Arma 3: Remote Execution", "createLocation"])).to_string()
}
fn code_text(d: &mut D) -> String {
    (*d.pick(&["player", "hint \"é\";", "_x = [[1, 2], [3, 4]];", "[[west]]", "a setVariable [\"b\", [[]]];", "a select 0; // {{x}}", "\nhint str 1;\nplayer\n", "x = [[[0]]];", "1 + 1"])).to_string()
}
fn link(d: &mut D, name: &str) -> Doc {
    let mut o = Doc::default();
    let p = page(d);
    let to = p.replace(' ', "_");
    match d.below(4) {
        0 | 1 => o.as_(&format!("[[{p}]]"), &format!("[{p}]({SITE}{to})")),
        2 => {
            let text = *d.pick(&["scripted", "see here", "é"]);
            o.as_(&format!("[[{p}|{text}]]"), &format!("[{text}]({SITE}{to})"));
        }
        _ => {
            let at = *d.pick(&["Example 5", "Notes", "Alternative Syntax 2"]);
            if d.bool() {
                o.as_(&format!("{{{{Link|#{at}}}}}"), &format!("[{at}]({SITE}{name}#{})", at.replace(' ', "_")));
            } else {
                o.as_(&format!("{{{{Link|{at}}}}}"), &format!("[{at}]({SITE}{})", at.replace(' ', "_")));
            }
        }
    }
    o
}
fn inline(d: &mut D, name: &str) -> Doc {
    let mut o = Doc::default();
    for k in 0..d.usize(1, 5) {
        if k > 0 {
            o.both(" ");
        }
        match d.weighted(&[4, 3, 1, 1, 1]) {
            0 => {
                let w = words(d);
                o.both(&w);
            }
            1 => {
                let l = link(d, name);
                o.add(&l);
            }
            2 => {
                let t = *d.pick(&["Reserved variable", "true", "[[1, 2], [3]]", "é"]);
                o.as_(&format!("{{{{hl|{t}}}}}"), &format!("`{t}`"));
            }
            3 => {
                let t = code_text(d);
                o.as_(&format!("<sqf inline>{t}</sqf>"), &format!("`{t}`"));
            }
            _ => {
                let t = code_text(d);
                o.as_(&format!("<sqf>{t}</sqf>"), &format!("```sqf\n{t}\n```"));
            }
        }
    }
    o
}
fn description(d: &mut D, name: &str) -> Doc {
    let mut o = Doc::default();
    for k in 0..d.usize(0, 4) {
        if k > 0 {
            o.both("\n");
        }
        if d.chance(1, 3) {
            let kind = *d.pick(&["warning", "informative", "important", "arma3", "Warning"]);
            let mut head = kind.chars();
            let head: String = head.next().map(|f| f.to_uppercase().chain(head).collect()).unwrap_or_default();
            let i = inline(d, name);
            let (a, b) = *d.pick(&[("", ""), ("\n", "\n"), (" ", ""), ("\n", "")]);
            let f = *d.pick(&["Feature", "Feature ", "feature"]);
            o.as_(&format!("{{{{{f}|{kind}|{a}{}{b}}}}}", i.wiki), &format!("### {head}\n{}{b}", i.shown));
        } else {
            let i = inline(d, name);
            o.add(&i);
        }
    }
    o
}
/// An argument, as it is defined and as it is shown.
fn argument(d: &mut D, depth: u32) -> (serde_json::Value, String) {
    if depth > 0 && d.chance(1, 3) {
        let (v, s): (Vec<_>, Vec<_>) = (0..d.usize(1, 3)).map(|_| argument(d, depth - 1)).unzip();
        (v.into(), format!("[{}]", s.join(", ")))
    } else {
        let n = *d.pick(&["unit", "value", "varName", "x2"]);
        (n.into(), n.to_string())
    }
}

/// The definition of a command, how it may be called, and what is shown of it.
fn command(d: &mut D, name: &str) -> (String, Vec<u32>, Vec<String>) {
    let text = |s: &str| serde_json::Value::from(s).to_string();
    let mut yaml = format!("name: {name}\n");
    let mut head = format!("## {name}\nCustom Command\n\n");
    let doc = description(d, name);
    yaml.push_str(&format!("description: {}\n", text(&doc.wiki)));
    let since = d.chance(2, 3).then(|| (d.usize(0, 3), d.usize(0, 30)));
    if let Some((major, minor)) = since {
        yaml.push_str(&format!("since:\n  arma_3:\n    major: {major}\n    minor: {minor}\n"));
        head.push_str(&format!("Since [Arma 3 {major}.{minor:02}]({SITE}Category:Introduced_with_Arma_3_version_{major}.{minor:02})\n\n"));
    } else if d.bool() {
        yaml.push_str("since:\n  arma_2:\n    major: 1\n    minor: 0\n");
    }
    for (key, what) in [("argument_loc", "Argument"), ("effect_loc", "Effect")] {
        let l = *d.pick(&["Unspecified", "Local", "Global", "Server"]);
        yaml.push_str(&format!("{key}: {l}\n"));
        if l != "Unspecified" {
            head.push_str(&format!("[{what} {l}]({SITE}Multiplayer_Scripting#Locality)\n\n"));
        }
    }
    let mut shown = vec![head, doc.shown];
    let mut kinds = vec![];
    yaml.push_str("syntax:\n");
    // values are not called with arguments
    let value = name != "hint" && d.chance(1, 3);
    for _ in 0..d.usize(1, 3) {
        let kind = if value { 0 } else { d.usize(1, 2) as u32 };
        kinds.push(kind);
        let (left, right) = (argument(d, 2), argument(d, 2));
        let (call, call_shown) = match kind {
            0 => ("Nular".to_string(), name.to_string()),
            1 => (format!("!Unary {}", right.0), format!("{name} {}", right.1)),
            _ => (format!("!Binary [{}, {}]", left.0, right.0), format!("{} {name} {}", left.1, right.1)),
        };
        yaml.push_str(&format!("- call: {call}\n  ret: [Nothing, null]\n"));
        let mut syntax = format!("### Syntax\n```sqf\n{call_shown}\n```\n");
        let mut params = String::new();
        for _ in 0..d.usize(0, 3) {
            let n = *d.pick(&["unit", "value", "varName"]);
            let (typ, typ_shown) = *d.pick(&[("Number", "Number"), ("ArrayUnknown", "Array Unknown"), ("Object", "Object"), ("Unknown", ""), ("EdenID", "Eden ID")]);
            params.push_str(&format!("  - name: {n}\n    type: {typ}\n"));
            syntax.push_str(&if typ_shown.is_empty() { format!("- `{n}`: Unknown") } else { format!("- `{n}`: [{typ_shown}]({SITE}{})", typ_shown.replace(' ', "_")) });
            if d.bool() {
                let mut o = Doc::default();
                let w = words(d);
                o.both(&w);
                if d.bool() {
                    o.both(" ");
                    let l = link(d, name);
                    o.add(&l);
                }
                params.push_str(&format!("    description: {}\n", text(&o.wiki)));
                syntax.push_str(&format!(" - {}", o.shown));
            }
            if d.chance(1, 4) {
                params.push_str("    optional: true\n    default: \"0\"\n");
            }
            syntax.push('\n');
        }
        yaml.push_str(&if params.is_empty() { "  params: []\n".to_string() } else { format!("  params:\n{params}") });
        shown.push(syntax);
    }
    let examples: Vec<Doc> = (0..d.usize(0, 3)).map(|_| inline(d, name)).collect();
    if !examples.is_empty() {
        yaml.push_str("examples:\n");
    }
    for e in &examples {
        yaml.push_str(&format!("- {}\n", text(&e.wiki)));
        shown.push(format!("### Example\n{}", e.shown));
    }
    (yaml, kinds, shown)
}

fn documentation(d: &mut D, c: &mut Case) -> R {
    let root = vpc::scratch().join("editor");
    let _ = std::fs::remove_dir_all(&root);
    let folder = root.join("mod");
    let dir = folder.join("addons/main");
    std::fs::create_dir_all(&dir).expect("scratch");
    std::fs::create_dir_all(folder.join(".hemtt/commands")).expect("scratch");
    std::fs::write(dir.join("$PBOPREFIX$"), "z\\x\\main").expect("scratch");
    let path = dir.join("fnc_test.sqf");
    let mut editor: Option<Editor> = None;
    for round in 0..d.usize(1, 2) {
        let mut script = String::new();
        // line, column, what is shown there
        let mut want: Vec<(usize, usize, Vec<String>)> = vec![];
        for (k, name) in ["myFirst", "my_Second", "THIRD3", "hint"].into_iter().enumerate() {
            if k > 0 && d.chance(1, 4) {
                continue;
            }
            let (yaml, kinds, shown) = command(d, name);
            c.input(&yaml);
            std::fs::write(folder.join(format!(".hemtt/commands/c{k}{}", *d.pick(&[".yml", ".yaml", ".yml"]))), &yaml).expect("scratch");
            for old in [".yml", ".yaml"].iter().map(|e| folder.join(format!(".hemtt/commands/c{k}{e}"))) {
                if std::fs::read_to_string(&old).is_ok_and(|t| t != yaml) {
                    std::fs::remove_file(&old).expect("scratch");
                }
            }
            for kind in kinds {
                let written = match d.below(3) {
                    0 => name.to_lowercase(),
                    _ => name.to_string(),
                };
                let line = script.matches('\n').count();
                let (text, at) = match kind {
                    0 => (format!("x = {written};\n"), 4),
                    1 => (format!("{written} 5;\n"), 0),
                    _ => (format!("7 {written} 5;\n"), 2),
                };
                script.push_str(&text);
                want.push((line, at, shown.clone()));
            }
        }
        std::fs::write(&path, &script).expect("scratch");
        if let Some(e) = &mut editor {
            e.saved(&path)?;
        } else {
            let mut e = Editor::start(&[folder.clone()])?;
            e.open(&path, &script)?;
            editor = Some(e);
        }
        let e = editor.as_mut().expect("started");
        let shown = |e: &mut Editor, line: usize, at: usize| -> Result<Vec<String>, Fail> {
            let v = e.hover(&path, line, at)?;
            Ok(v["contents"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or_default().to_string()).collect()).unwrap_or_default())
        };
        let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
        for (line, at, want) in &want {
            let mut got = shown(e, *line, *at)?;
            // the file may not have been read yet
            while &got != want && std::time::Instant::now() < end {
                e.settle(20)?;
                let again = shown(e, *line, *at)?;
                if again == got && !got.is_empty() && (round == 0 || end.saturating_duration_since(std::time::Instant::now()).as_secs() < 15) {
                    break;
                }
                got = again;
            }
            ensure!(got.len() == want.len(), "parts", "{got:?} instead of {want:?} is shown at {line}:{at} for\n{script}");
            for (n, (g, w)) in got.iter().zip(want).enumerate() {
                let part = match n {
                    0 => "head",
                    1 => "description",
                    _ => "syntax or example",
                };
                ensure!(g == w, part, "{g:?}\ninstead of\n{w:?}\nis shown at {line}:{at} for\n{script}");
            }
        }
        c.nontrivial(want.iter().any(|w| w.2[1].contains(SITE)));
        c.note_if(want.iter().any(|w| w.2[1].contains("###")), "box");
        c.note_if(round > 0, "defined again");
    }
    drop(editor);
    let _ = std::fs::remove_dir_all(&root);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "H02",
        level: "exploration",
        rule: "more than two commands are in the script",
        facets: vec![Facet::new("commands", 250, 20_000, commands).hang(180)],
        probes: vec![],
        assumptions: &[],
    },
    Property {
        id: "H03",
        level: "exploration",
        rule: "a description with links",
        facets: vec![Facet::new("documentation", 250, 20_000, documentation).hang(180)],
        probes: vec![],
        assumptions: &[],
    }]
}
