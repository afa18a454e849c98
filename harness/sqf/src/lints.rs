//! SQF: what the lints report about scripts.
use crate::sqf::{database, errors, find, layout, processed, reference, show, special, Tok, CONTROL, E, OPS, S};
use hemtt_common::config::ProjectConfig;
use hemtt_common::version::Version;
use hemtt_sqf::analyze::analyze;
use hemtt_sqf::parser::database::Database;
use hemtt_sqf::parser::run;
use hemtt_workspace::addons::Addon;
use hemtt_workspace::reporting::{Severity, WorkspaceFiles};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};
use vpc::{ensure, fail, Case, Facet, Fail, Property, D, R};

fn shared() -> Arc<Database> {
    static DB: OnceLock<Arc<Database>> = OnceLock::new();
    DB.get_or_init(|| Arc::new(Database::a3(false))).clone()
}

// ---- text with marks ----

/// A report that is expected: the mistake, the tokens that are marked and the text that is suggested
#[derive(Clone, Debug)]
struct Want {
    code: &'static str,
    at: BTreeSet<usize>,
    suggestion: Option<String>,
    severity: Option<Severity>,
    /// the last token of what is marked
    end: Option<usize>,
}
#[derive(Default)]
struct Script {
    t: Vec<Tok>,
    want: Vec<Want>,
}
fn tokens(text: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = text.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '"' || c[i] == '\'' {
            let q = c[i];
            let mut s = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err(format!("open string in {text:?}")),
                    Some(x) if *x == q && c.get(i + 1) == Some(&q) => {
                        s.push(q);
                        i += 2;
                    }
                    Some(x) if *x == q => break,
                    Some(x) => {
                        s.push(*x);
                        i += 1;
                    }
                }
            }
            i += 1;
            v.push(Tok::Str(s, q));
        } else if c[i].is_ascii_alphanumeric() || c[i] == '_' {
            let word = |c: &char| c.is_ascii_alphanumeric() || *c == '_' || *c == '.';
            let n = c[i..].iter().position(|c| !word(c)).unwrap_or(c.len() - i);
            let w: String = c[i..i + n].iter().collect();
            v.push(if c[i].is_ascii_digit() { Tok::Num(w) } else { Tok::Word(w) });
            i += n;
        } else {
            let rest: String = c[i..].iter().take(2).collect();
            let o = OPS.iter().chain(&CONTROL).find(|o| rest.starts_with(**o)).ok_or_else(|| format!("{:?} in {text:?}", c[i]))?;
            i += o.len();
            v.push(Tok::Op(o));
        }
    }
    Ok(v)
}
impl Script {
    fn push(&mut self, text: &str) {
        self.t.extend(tokens(text).unwrap_or_else(|e| panic!("template: {e}")));
    }
    /// Text in which `@` stands before the tokens that are marked, and `¶` behind the last of one that is marked as a whole
    fn marked(&mut self, code: &'static str, text: &str, suggestion: Option<String>) {
        let mut at = BTreeSet::new();
        let mut end = None;
        for (i, part) in text.split('@').enumerate() {
            if i > 0 {
                at.insert(self.t.len());
            }
            if let Some((part, rest)) = part.split_once('¶') {
                self.push(part);
                end = Some(self.t.len() - 1);
                self.push(rest);
            } else {
                self.push(part);
            }
        }
        self.want.push(Want { code, at, suggestion, severity: None, end });
    }
}

// ---- settings ----

struct Settings {
    toml: String,
    off: BTreeSet<&'static str>,
    severity: BTreeMap<&'static str, Severity>,
    ignore: BTreeMap<&'static str, Vec<String>>,
    banned: Vec<String>,
    required: Option<(u8, u8)>,
}
/// code, name, enabled, severity that is the default, and the lowest one
const LINTS: [(&str, &str, bool, Severity, Severity); 19] = [
    ("L-S01", "required_version", true, Severity::Error, Severity::Error),
    ("L-S02UE", "event_unknown", true, Severity::Warning, Severity::Warning),
    ("L-S02IC", "event_incorrect_command", true, Severity::Error, Severity::Error),
    ("L-S02IV", "event_insufficient_version", true, Severity::Error, Severity::Error),
    ("L-S03", "static_typename", true, Severity::Help, Severity::Help),
    ("L-S04", "command_case", true, Severity::Help, Severity::Help),
    ("L-S05", "if_assign", true, Severity::Help, Severity::Help),
    ("L-S06", "find_in_str", true, Severity::Help, Severity::Help),
    ("L-S07", "select_parse_number", true, Severity::Help, Severity::Help),
    ("L-S08", "format_args", true, Severity::Error, Severity::Warning),
    ("L-S09", "banned_commands", true, Severity::Error, Severity::Warning),
    ("L-S11", "if_not_else", false, Severity::Help, Severity::Help),
    ("L-S17", "var_all_caps", true, Severity::Help, Severity::Help),
    ("L-S18", "in_vehicle_check", true, Severity::Help, Severity::Help),
    ("L-S20", "bool_static_comparison", true, Severity::Help, Severity::Help),
    ("L-S21", "invalid_comparisons", true, Severity::Help, Severity::Help),
    ("L-S22", "this_call", false, Severity::Help, Severity::Help),
    ("L-S23", "reasign_reserved_variable", true, Severity::Error, Severity::Error),
    ("L-S24", "marker_update_spam", true, Severity::Help, Severity::Help),
];
fn settings(d: &mut D) -> Settings {
    let mut s = Settings { toml: "name = \"x\"\nprefix = \"x\"\n".into(), off: BTreeSet::new(), severity: BTreeMap::new(), ignore: BTreeMap::new(), banned: vec![], required: None };
    let plain = d.chance(1, 3);
    let ignorable: [(&str, &[&str]); 4] = [
        ("L-S02UE", &["HealingReceived", "hit2", "MPHit", "addEventHandler", "Damaged"]),
        ("L-S04", &["getPos", "TYPEOF", "setdir", "hint"]),
        ("L-S09", &["echo", "ADDPUBLICVARIABLEEVENTHANDLER", "hint"]),
        ("L-S17", &["MY_VAR", "MY_*", "A1", "my_other", "MY", "*"]),
    ];
    for (code, name, enabled, default, lowest) in LINTS {
        let mut on = enabled;
        let mut severity = default;
        let mut t = String::new();
        if !plain && d.chance(1, if enabled { 5 } else { 2 }) {
            let all = [(Severity::Help, "Help"), (Severity::Warning, "Warning"), (Severity::Error, "Error")];
            let allowed: Vec<_> = all.iter().filter(|s| s.0 >= lowest).collect();
            let stay = lowest == Severity::Error;
            match d.below(4) {
                0 => {
                    on = stay || d.bool();
                    t = format!("lints.sqf.{name} = {on}\n");
                }
                1 => {
                    let (x, w) = d.pick(&allowed);
                    severity = *x;
                    t = format!("lints.sqf.{name} = \"{w}\"\n");
                }
                _ => {
                    if stay || d.bool() {
                        on = true;
                        t.push_str(&format!("lints.sqf.{name}.enabled = true\n"));
                    } else if d.bool() {
                        on = false;
                        t.push_str(&format!("lints.sqf.{name}.enabled = false\n"));
                    }
                    if d.bool() {
                        let (x, w) = d.pick(&allowed);
                        severity = *x;
                        t.push_str(&format!("lints.sqf.{name}.severity = \"{w}\"\n"));
                    }
                    if let Some((_, ids)) = ignorable.iter().find(|i| i.0 == code) {
                        let mut list = vec![];
                        for x in *ids {
                            if d.chance(1, 3) && *x != "*" {
                                list.push((*x).to_string());
                            }
                        }
                        t.push_str(&format!("lints.sqf.{name}.options.ignore = {list:?}\n"));
                        s.ignore.insert(code, list);
                    }
                    if code == "L-S09" {
                        for x in ["hint", "SetDir", "player", "select", "systemChat"] {
                            if d.chance(1, 5) {
                                s.banned.push(x.to_string());
                            }
                        }
                        t.push_str(&format!("lints.sqf.{name}.options.banned = {:?}\n", s.banned));
                    }
                }
            }
        }
        s.toml.push_str(&t);
        if !on {
            s.off.insert(code);
        }
        s.severity.insert(code, severity);
    }
    if d.chance(2, 3) {
        s.required = Some(*d.pick(&[(0, 0), (1, 0), (1, 20), (1, 60), (2, 0), (2, 2), (2, 6), (2, 8), (2, 10), (2, 16), (2, 18)]));
    }
    s
}

// ---- scripts ----

const VARS: [&str; 9] = ["_unit", "_x", "_target", "my_list", "ace_unit", "_this", "_value", "_Unit", "_2d"];
const TYPES: [(&str, &str); 20] = [
    ("\"abc\"", "STRING"),
    ("'a \"b\"'", "STRING"),
    ("\"\"", "STRING"),
    ("5", "SCALAR"),
    ("1.5", "SCALAR"),
    ("true", "BOOL"),
    ("{}", "CODE"),
    ("[]", "ARRAY"),
    ("objNull", "OBJECT"),
    ("grpNull", "GROUP"),
    ("controlNull", "CONTROL"),
    ("displayNull", "DISPLAY"),
    ("teamMemberNull", "TEAM_MEMBER"),
    ("taskNull", "TASK"),
    ("locationNull", "LOCATION"),
    ("scriptNull", "SCRIPT"),
    ("configNull", "CONFIG"),
    ("missionNamespace", "NAMESPACE"),
    ("diaryRecordNull", "DIARY_RECORD"),
    ("createHashMap", "HASHMAP"),
];
struct Gen<'a> {
    s: Script,
    set: &'a Settings,
    budget: i64,
    depth: usize,
}
/// A condition: text, and the same negated; it is marked nowhere
fn condition(d: &mut D) -> String {
    (*d.pick(&["_c", "alive player", "_x > 3", "_name == \"a\"\"b\"", "_a && {_b}", "str _x != 'it''s'", "!_c", "isNull (_x getVariable [\"u\", objNull])", "_a || _b && _c", "call _check", "-1 < _n", "(count _list + 1) == 0x10"])).to_string()
}
/// A constant as `if` can give back: text in a script, value
fn constant(d: &mut D) -> String {
    (*d.pick(&["1", "0", "2", "1.5", "true", "\"apple\"", "'pear'", "\"1\"", "\"0\"", "\"say \"\"hi\"\"\"", "_fallback", "1e3", "'a\"\"b'", "\"é\""])).to_string()
}
impl Gen<'_> {
    fn statements(&mut self, d: &mut D) {
        let n = d.usize(if self.depth == 0 { 1 } else { 0 }, 4);
        for i in 0..n {
            if i > 0 {
                self.s.push(";");
            }
            self.statement(d);
        }
        if n > 0 && d.bool() {
            self.s.push(";");
        }
    }
    fn code(&mut self, d: &mut D) {
        self.s.push("{");
        self.depth += 1;
        if self.depth < 5 && self.budget > 0 {
            self.statements(d);
        } else {
            self.s.push("hint \"x\"");
        }
        self.depth -= 1;
        self.s.push("}");
    }
    fn statement(&mut self, d: &mut D) {
        self.budget -= 1;
        match d.weighted(&[6, 3, 2, 2]) {
            0 => {
                match d.below(6) {
                    0 => self.s.push("private _a ="),
                    1 => self.s.push("my_result ="),
                    2 => self.s.push("hint str"),
                    3 => self.s.push("systemChat format [\"%1 %2\", 1,"),
                    4 => self.s.push("_list pushBack ["),
                    _ => {}
                }
                let close = match self.s.t.last() {
                    Some(Tok::Op(",")) => "]",
                    Some(Tok::Op("[")) => ", 2]",
                    Some(Tok::Word(_)) => ")",
                    _ => "",
                };
                if close == ")" {
                    self.s.push("(");
                }
                let wrap = d.chance(1, 6);
                if wrap {
                    self.s.push("(");
                }
                self.expression(d);
                if wrap {
                    self.s.push(")");
                }
                self.s.push(close);
            }
            1 => match d.below(4) {
                0 => {
                    self.s.push("if (_c) then");
                    self.code(d);
                }
                1 => {
                    self.code(d);
                    self.s.push("forEach _list");
                }
                2 => {
                    self.s.push("[_a, 1] spawn");
                    self.code(d);
                }
                _ => {
                    self.s.push("private _fnc =");
                    self.code(d);
                }
            },
            2 => self.markers(d),
            _ => self.reserved(d),
        }
    }
    fn expression(&mut self, d: &mut D) {
        let v = *d.pick(&VARS);
        match d.below(14) {
            0 => {
                if d.chance(2, 3) {
                    let (x, t) = *d.pick(&TYPES);
                    let x = if d.chance(1, 4) && x.chars().all(char::is_alphabetic) && self.set.off.contains("L-S04") { x.to_uppercase() } else { x.to_string() };
                    self.s.marked("L-S03", &format!("@typeName {x}¶"), Some(format!("\"{t}\"")));
                } else {
                    let x = *d.pick(&["_v", "player", "[1]", "{1}", "(1 + _v)", "str _v", "[[]]"]);
                    self.s.push(&format!("typeName {x}"));
                }
            }
            1 => {
                let (c, a, b) = (condition(d), constant(d), constant(d));
                match d.weighted(&[4, 1, 1, 1, 1, 1]) {
                    0 => {
                        let s = if a == "1" && b == "0" { format!("parseNumber ({c})") } else { format!("[{b}, {a}] select ({c})") };
                        let not = c.starts_with('!');
                        let at = self.s.t.len();
                        self.s.marked("L-S05", &format!("@if ({c}) then {{{a}}} else {{{b}}}¶"), Some(s));
                        if not {
                            self.s.want.push(Want { code: "L-S11", at: [at + 2].into(), suggestion: None, severity: None, end: None });
                        }
                    }
                    1 => self.s.push(&format!("if (_c) then {{hint \"a\"; {a}}} else {{{b}}}")),
                    2 => self.s.push(&format!("if (_c) then {{{a}}}")),
                    3 => self.s.push(&format!("if (isNil \"x\") then {{{a}}} else {{{b}}}")),
                    4 => self.s.push(&format!("if (_c) then {{[{a}]}} else {{{b}}}")),
                    _ => self.s.push(&format!("if (_c) then {{{a}}} else {{count _list}}")),
                }
            }
            2 => {
                let n = *d.pick(&["\"b\"", "'b'", "\"a\"\"b\"", "'a''b'", "\"é\""]);
                let h = *d.pick(&["\"abc\"", "'abc'", "_text", "my_text", "\"a\"\"bc\""]);
                if d.bool() {
                    self.s.marked("L-S06", &format!("@{h} find {n} > -1¶"), Some(format!("{n} in {h}")));
                } else {
                    let x = *d.pick(&["\"abc\" find _v > -1", "\"abc\" find \"b\" > 0", "\"abc\" find 'b' >= -1", "_text find \"x\" == -1", "_text find \"x\" > -2", "_text find 5 > -1", "_text find \"x\" > 1"]);
                    self.s.push(x);
                }
            }
            3 => {
                if d.chance(2, 3) {
                    let (c, not) = *d.pick(&[
                        ("alive player", "!(alive player)"),
                        ("_x == 3", "_x != 3"),
                        ("_x != \"a\"\"b\"", "_x == \"a\"\"b\""),
                        ("_a && _b", "!(_a && _b)"),
                        ("_a > 3", "!(_a > 3)"),
                        ("isServer", "!isServer"),
                        ("isNull _x", "!(isNull _x)"),
                        ("surfaceIsWater getPos player", "!(surfaceIsWater getPos player)"),
                        ("_a isEqualTo [1, 'x']", "!(_a isEqualTo [1, 'x'])"),
                    ]);
                    let flip = d.bool();
                    let a = if flip { "1, 0" } else { "0, 1" };
                    self.s.marked("L-S07", &format!("@[{a}]¶ select ({c})"), Some(format!("parseNumber ({})", if flip { not } else { c })));
                } else {
                    let x = *d.pick(&["[0, 1] select _v", "[1, 2] select alive player", "[0, 1, 2] select (alive player)", "[\"a\", \"b\"] select (alive player)", "[0, 1] select 1", "[0, 0] select isServer", "[1, 1] select isServer", "[0, 1] select [0, 1]", "[0, 1] select count _list", "[1, 0] select {_x > 0}", "_list select isServer", "[0, _v] select isServer"]);
                    self.s.push(x);
                }
            }
            4 => {
                let mut text = String::new();
                let mut used = BTreeSet::new();
                let mut bad = false;
                let n = d.usize(0, 5);
                for i in 0..n {
                    match d.weighted(&[3, 4, 2, 1]) {
                        0 => text.push_str(*d.pick(&["a", " ", "é", "b c", "•"])),
                        1 => {
                            let k = d.range(1, 4);
                            used.insert(k);
                            text.push_str(&format!("%{k} "));
                        }
                        2 => text.push_str("%%"),
                        _ => {
                            bad = true;
                            text.push_str(if i + 1 == n { "%" } else { "% " });
                        }
                    }
                }
                let max = used.iter().max().copied().unwrap_or(0) as usize;
                let tokens = text.replace("%%", "").matches('%').count();
                if bad && text.contains("%%%") {
                    // which of the signs is escaped is open
                    text = "%".into();
                }
                let args = if d.chance(2, 3) { max } else { d.usize(0, 5) };
                let mut list = format!("\"{text}\"");
                for i in 0..args {
                    list.push_str(if i % 2 == 0 { ", _v" } else { ", 1 + 2" });
                }
                let name = *d.pick(&["format", "formatText"]);
                // as many arguments as the highest number, with no number left out
                let skipped = max > tokens;
                if bad || args != max || skipped {
                    self.s.marked("L-S08", &format!("@{name} [{list}]¶"), None);
                } else if d.chance(1, 12) {
                    self.s.marked("L-S08", &format!("@{name} []¶"), None);
                } else if d.chance(1, 8) {
                    self.s.push(*d.pick(&["format _v", "format [_v, 1]", "formatText [str _v, 1]"]));
                } else {
                    self.s.push(&format!("{name} [{list}]"));
                }
            }
            5 => {
                let not = d.bool();
                let at = self.s.t.len();
                let c = *d.pick(&["_c", "alive player", "(_a && _b)", "(_x > 3)"]);
                self.s.push(&format!("if ({}{c}) then", if not { "!" } else { "" }));
                self.code(d);
                if d.bool() {
                    self.s.push("else");
                    self.code(d);
                    if not {
                        self.s.want.push(Want { code: "L-S11", at: [at + 2].into(), suggestion: None, severity: None, end: None });
                    }
                    // both blocks of an empty kind are no constants: they end in a call
                }
            }
            6 => {
                let w = *d.pick(&["MY_VAR", "MY_OTHER", "A1", "MY", "_MY_VAR", "My_Var", "SLX_XEH_COMPILE_NEW", "X"]);
                self.s.push(&format!("[{w}, 1]"));
            }
            7 => {
                let o = *d.pick(&["_unit", "player", "ace_unit"]);
                let o2 = if o == "player" || d.chance(2, 3) { o.to_string() } else { o.to_uppercase() };
                if d.chance(2, 3) && !o2.starts_with('A') {
                    let ne = d.bool();
                    let s = format!("{}isNull objectParent {o}", if ne { "!" } else { "" });
                    let op = if ne { "!=" } else { "==" };
                    if d.bool() {
                        self.s.marked("L-S18", &format!("@vehicle {o} {op} {o2}¶"), Some(s));
                    } else {
                        self.s.marked("L-S18", &format!("@{o2} {op} vehicle {o}¶"), Some(s));
                    }
                } else {
                    let x = *d.pick(&["vehicle _v == _w", "vehicle _v == vehicle _v", "typeOf _v == _v", "vehicle player != _unit", "vehicle _v isEqualTo _v", "vehicle _v > _v"]);
                    self.s.push(x);
                }
            }
            8 => {
                let b = *d.pick(&["true", "false", "TRUE", "False"]);
                if d.chance(2, 3) {
                    let ne = d.bool();
                    let op = if ne { "!=" } else { "==" };
                    let s = if ne == (b.to_lowercase() == "true") { format!("!{v}") } else { v.to_string() };
                    let text = if d.bool() { format!("@{v} {op} {b}¶") } else { format!("@{b} {op} {v}¶") };
                    self.s.marked("L-S20", &text, Some(s));
                } else {
                    self.s.push(&format!("{v} isEqualTo {b}"));
                }
            }
            9 => self.comparisons(d),
            10 => {
                if d.bool() {
                    let t = *d.pick(&["_this", "_THIS", "_This"]);
                    self.s.marked("L-S22", &format!("@{t}¶ call"), None);
                    if d.bool() {
                        self.code(d);
                    } else {
                        self.s.push("my_fnc");
                    }
                } else {
                    let x = *d.pick(&["[_this] call my_fnc", "this2 call my_fnc", "call my_fnc", "_this spawn my_fnc", "_thisx call my_fnc"]);
                    self.s.push(x);
                }
            }
            11 => self.event(d),
            12 => {
                // commands that are new, broken or written in another way
                let x = *d.pick(&["getPos _v", "getpos _v", "TYPEOF _v", "_v setdir 5", "PLAYER", "getWaterLeakiness _v", "keys _map", "_list findIf {trim _x}", "getWaterLeakiness vehicle _v", "_list apply {keys _x}", "echo \"x\"", "\"v\" addPublicVariableEventHandler {}", "[1, trim _x]", "_map getOrDefault [\"a\", createHashMap]", "_a isNotEqualTo _b", "Hint \"x\"", "hint trim _v", "fuel vehicle player", "-(getWaterLeakiness _v)"]);
                self.s.push(x);
            }
            _ => {
                let x = *d.pick(&["_v + 1", "player getVariable [\"a\", 0]", "[1, [2, \"MY_TEXT\"]]", "\"typeName 5\"", "_list select 0", "(_a max 3) min _b"]);
                self.s.push(x);
            }
        }
    }
    fn comparisons(&mut self, d: &mut D) {
        // variable, kind, number: -1 is <, 1 is >, 0 is == and 2 is !=
        let n = d.usize(2, 3);
        let mut list: Vec<(&str, i32, i64)> = vec![];
        for _ in 0..n {
            let v = *d.pick(&["_x", "_x", "_X", "_y"]);
            list.push((v, *d.pick(&[-1, 1, 0, 2]), d.i64(0, 6) * 10));
        }
        let same = |a: &str, b: &str| a.eq_ignore_ascii_case(b);
        // equal limits and other combinations are open
        for i in 0..n {
            for j in 0..i {
                let (a, b) = (list[i], list[j]);
                if same(a.0, b.0) && a.2 == b.2 && (a.1 == -b.1 || a.1 == b.1) && (a.1 == 1 || a.1 == -1) {
                    list[i].2 += 1 + i as i64;
                }
                if same(a.0, b.0) && a.1 == 0 && b.1 == 0 {
                    list[i].0 = ["_p1", "_p2", "_p3"][i];
                }
            }
        }
        for i in 0..n {
            // an equation next to a limit is open unless it is for another variable
            if list[i].1 == 0 && list.iter().any(|b| same(b.0, list[i].0) && (b.1 == 1 || b.1 == -1)) {
                list[i].0 = ["_q1", "_q2", "_q3"][i];
            }
        }
        let or = d.chance(1, 6);
        self.s.push("if (");
        let mut starts = vec![];
        let mut open = vec![];
        for (i, (v, kind, k)) in list.iter().enumerate() {
            if i > 0 {
                self.s.push(if or { "||" } else { "&&" });
                if d.bool() {
                    let (a, b) = *d.pick(&[("{", "}"), ("(", ")")]);
                    self.s.push(a);
                    open.push(b);
                }
            }
            starts.push(self.s.t.len());
            let eq = d.bool();
            let mirror = d.chance(1, 3);
            let op = match (kind, eq, mirror) {
                (-1, false, false) | (1, false, true) => "<",
                (-1, true, false) | (1, true, true) => "<=",
                (1, false, false) | (-1, false, true) => ">",
                (1, true, false) | (-1, true, true) => ">=",
                (0, ..) => "==",
                _ => "!=",
            };
            self.s.push(&if mirror { format!("{k} {op} {v}") } else { format!("{v} {op} {k}") });
            if i + 1 == n && !or && d.chance(1, 4) {
                self.s.push(*d.pick(&["&& {_a || _b}", "&& _c", "&& (alive player)"]));
            }
        }
        while let Some(k) = open.pop() {
            self.s.push(k);
        }
        self.s.push(") then");
        if !or {
            for i in 0..n {
                for j in 0..i {
                    let (a, b) = (list[j], list[i]);
                    if !same(a.0, b.0) {
                        continue;
                    }
                    let report = match (a.1, b.1) {
                        (1, 1) | (-1, -1) => true,
                        (-1, 1) => a.2 < b.2,
                        (1, -1) => b.2 < a.2,
                        (2, 2) | (0, 2) | (2, 0) => a.2 == b.2,
                        _ => false,
                    };
                    if report {
                        self.s.want.push(Want { code: "L-S21", at: [starts[j], starts[i]].into(), suggestion: None, severity: None, end: None });
                    }
                }
            }
        }
        self.code(d);
    }
    fn event(&mut self, d: &mut D) {
        let (target, name, kinds): (&str, &str, &[&str]) = *d.pick(&[
            ("player", "addEventHandler", &["standard", "group", "projectile"] as &[&str]),
            ("player", "addMPEventHandler", &["multiplayer"]),
            ("", "addMissionEventHandler", &["mission"]),
            ("_ctrl", "ctrlAddEventHandler", &["user_interface"]),
            ("_display", "displayAddEventHandler", &["user_interface"]),
            ("", "addMusicEventHandler", &["music"]),
            ("player", "removeEventHandler", &["standard", "group", "projectile"]),
        ]);
        // the kinds of targets that know the event, and since when
        let events: [(&str, &[(&str, (u8, u8))]); 16] = [
            ("Killed", &[("standard", (1, 0))]),
            ("HitPart", &[("standard", (1, 0)), ("projectile", (2, 6))]),
            ("OpticsModeChanged", &[("standard", (2, 10))]),
            ("MPHit", &[("multiplayer", (1, 0))]),
            ("MPKilled", &[("multiplayer", (1, 0))]),
            ("EntityKilled", &[("mission", (1, 0))]),
            ("MarkerCreated", &[("mission", (2, 2))]),
            ("MouseZChanged", &[("user_interface", (2, 8))]),
            ("KeyDown", &[("user_interface", (1, 0))]),
            ("UnitJoined", &[("group", (2, 6))]),
            ("MusicStart", &[("music", (1, 0))]),
            ("HealingReceived", &[]),
            ("killed", &[]),
            ("Damaged", &[]),
            ("Hit2", &[]),
            ("", &[]),
        ];
        let (id, known) = *d.pick(&events);
        let kept: Vec<_> = known.iter().filter(|k| kinds.contains(&k.0)).collect();
        self.s.push(&format!("{target} {name} ["));
        let at = BTreeSet::from([self.s.t.len()]);
        self.s.push(&format!("\"{id}\","));
        let end = Some(self.s.t.len() - 2);
        let mut report = |code, severity| self.s.want.push(Want { code, at: at.clone(), suggestion: None, severity, end });
        if known.is_empty() {
            let ignored = self.set.ignore.get("L-S02UE").is_some_and(|l| l.iter().any(|x| x.eq_ignore_ascii_case(id)));
            if !ignored {
                report("L-S02UE", (id == "Damaged").then_some(Severity::Error));
            }
        } else if kept.is_empty() {
            report("L-S02IC", None);
        } else if let (Some(min), Some(r)) = (kept.iter().map(|k| k.1).min(), self.set.required) {
            if r < min {
                report("L-S02IV", None);
            }
        }
        self.code(d);
        self.s.push("]");
    }
    fn markers(&mut self, d: &mut D) {
        self.s.push("call {");
        let mut pending: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
        let keys = ["v:_mk", "v:my_mk", "s:m1", "s:_mk"];
        let mut done = vec![];
        for _ in 0..d.usize(1, 7) {
            let key = *d.pick(&keys);
            let var = &key[2..];
            match d.weighted(&[6, 2, 1, 1]) {
                0 | 1 => {
                    let text = if key.starts_with('s') { format!("\"{var}\"") } else if d.chance(1, 6) { format!("{}{}", &var[..1], var[1..].to_string().replace("mk", "Mk")) } else { var.to_string() };
                    self.s.push(&text);
                    let at = self.s.t.len();
                    let (cmd, value) = *d.pick(&[("setMarkerAlpha", "0.5"), ("setMarkerDir", "90"), ("setMarkerSize", "[1, 2]"), ("setMarkerShape", "\"ICON\"")]);
                    let local = d.chance(1, 4);
                    self.s.push(&format!("{cmd}{} {value};", if local { "Local" } else { "" }));
                    if !local {
                        pending.entry(key).or_default().push(at);
                    }
                }
                2 => self.s.push("hint \"x\";"),
                _ => {
                    if key.starts_with('v') {
                        self.s.push(&format!("{var} = \"m2\";"));
                        done.extend(pending.remove(key));
                    } else {
                        // the text is no variable
                        self.s.push("_other = 1;");
                    }
                }
            }
        }
        done.extend(pending.into_values());
        for list in done.into_iter().filter(|l| l.len() > 1) {
            self.s.want.push(Want { code: "L-S24", at: list.into_iter().collect(), suggestion: None, severity: None, end: None });
        }
        self.s.push("}");
    }
    fn reserved(&mut self, d: &mut D) {
        let r = *d.pick(&["_this", "_forEachIndex", "this", "thisList", "_exception", "_thisScript", "_THIS", "thistrigger"]);
        let global = !r.starts_with('_');
        let private = if !global && d.bool() { "private " } else { "" };
        self.s.push("call {");
        if d.chance(1, 3) {
            self.s.push("_y = 1;");
        }
        let other = *d.pick(&["", "hint \"x\";", "_z = 2;"]);
        match d.below(8) {
            0 => self.s.marked("L-S23", &format!("@{private}{r} = 1;"), None),
            1 => self.s.marked("L-S23", &format!("params [\"_a\", @\"{r}\"];"), None),
            2 => self.s.marked("L-S23", &format!("_list params [[\"_a\", 1], [@\"{r}\", 2]];"), None),
            3 => self.s.push(&format!("params [\"_a\", \"_thiss\", \"_that\", [\"_b\", \"{r}\"]];")),
            4 => self.s.push(&format!("private _saved = {r}; {r} = 5; {other} call my_fnc; {r} = _saved;")),
            5 => self.s.marked("L-S23", &format!("private _saved = @{r}; @{r} = 5; {other} call my_fnc;"), None),
            6 => self.s.marked("L-S23", &format!("private _saved = @{r}; @{r} = 5; {other} @private _saved = 7; {r} = _saved;"), None),
            _ => self.s.push(&format!("_value = {r}; {other} _thiss = {r};")),
        }
        self.s.push("}");
    }
}

/// What can be seen from single tokens
fn general(t: &[Tok], set: &Settings, want: &mut Vec<Want>) {
    let db = database();
    let ignored = |code: &str, w: &str| {
        set.ignore.get(code).is_some_and(|l| {
            l.iter().any(|x| if code == "L-S17" { x == w || x.strip_suffix('*').is_some_and(|p| w.starts_with(p)) } else { x.eq_ignore_ascii_case(w) })
        })
    };
    let mut add = |code, i: usize| want.push(Want { code, at: [i].into(), suggestion: None, severity: None, end: Some(i) });
    // the newest command of each block
    let mut blocks: Vec<((u8, u8), BTreeSet<usize>)> = vec![((0, 0), BTreeSet::new())];
    let mut newest = vec![];
    for (i, tok) in t.iter().enumerate() {
        let private = matches!(tok, Tok::Word(w) if w == "private") && t.get(i + 2) == Some(&Tok::Op("="));
        let command = match tok {
            Tok::Op(o) if OPS.contains(o) => Some(*o),
            Tok::Word(w) if special(&w.to_lowercase()) => match w.to_lowercase().as_str() {
                "or" => Some("||"),
                "and" => Some("&&"),
                "true" | "false" => None,
                _ => Some(w.as_str()),
            },
            Tok::Word(w) if !private && db.has_command(w) => Some(w.as_str()),
            _ => None,
        };
        if let Some(v) = command.and_then(|c| db.command_version(c)) {
            let v = (v.major(), v.minor());
            let b = blocks.last_mut().expect("block");
            if v > b.0 {
                *b = (v, BTreeSet::new());
            }
            if v == b.0 {
                b.1.insert(i);
            }
        }
        match tok {
            Tok::Op("{") => blocks.push(((0, 0), BTreeSet::new())),
            Tok::Op("}") => newest.extend(blocks.pop()),
            Tok::Word(w) if !special(&w.to_lowercase()) => {
                if !private && db.has_command(w) {
                    let wiki = db.wiki().commands().get(w).expect("command");
                    if wiki.name() != w && !ignored("L-S04", w) {
                        add("L-S04", i);
                    }
                    let broken = ["echo", "addpublicvariableeventhandler"].contains(&w.to_lowercase().as_str());
                    if (broken || set.banned.iter().any(|b| b.eq_ignore_ascii_case(w))) && !ignored("L-S09", w) {
                        add("L-S09", i);
                    }
                } else if !db.has_command(w) && t.get(i + 1) != Some(&Tok::Op("=")) && !w.starts_with('_') && w.to_uppercase() == *w && w != "SLX_XEH_COMPILE_NEW" && !ignored("L-S17", w) {
                    add("L-S17", i);
                }
            }
            _ => {}
        }
    }
    newest.append(&mut blocks);
    if let Some(r) = set.required {
        for (v, at) in newest {
            if v > r {
                // one of these
                want.push(Want { code: "L-S01", at, suggestion: None, severity: None, end: None });
            }
        }
    }
}
/// Text of a tree without positions
fn shape(e: &E) -> String {
    match e {
        E::Num(n) => format!("{n:08x}"),
        E::Str(s) => format!("{s:?}"),
        E::Bool(b) => b.to_string(),
        E::Nular(n, _) | E::Var(n, _) => n.to_lowercase(),
        E::Arr(v, _) => format!("[{}]", v.iter().map(shape).collect::<Vec<_>>().join(",")),
        E::Code(v, ..) => format!("{{{}}}", shapes(v)),
        E::Un(n, a, _) => format!("({} {})", n.to_lowercase(), shape(a)),
        E::Bin(n, a, b, _) => format!("({} {} {})", shape(a), n.to_lowercase(), shape(b)),
    }
}
fn shapes(v: &[S]) -> String {
    v.iter()
        .map(|s| match s {
            S::Expr(e) => shape(e),
            S::Assign(l, n, e, _) => format!("{l} {n} = {}", shape(e)),
        })
        .collect::<Vec<_>>()
        .join(";")
}
fn meaning(text: &str) -> Result<String, String> {
    let t = tokens(text)?;
    reference(&t).map(|v| shapes(&v)).ok_or_else(|| format!("{text:?} is no script"))
}

fn lints(d: &mut D, c: &mut Case) -> R {
    let set = settings(d);
    let budget = *d.pick(&[2, 8, 20]);
    let mut g = Gen { s: Script::default(), set: &set, budget, depth: 0 };
    g.statements(d);
    let Script { t, mut want } = g.s;
    let l = layout(d, &t);
    c.input(&format!("{}\nrequired {:?}\n{}", set.toml, set.required, show(&l)));
    ensure!(reference(&t).is_some(), "harness", "the reference rejects the script");
    general(&t, &set, &mut want);
    want.retain(|w| !set.off.contains(w.code));
    c.nontrivial(!want.is_empty());
    for w in &want {
        c.note(w.code);
    }
    std::fs::write("project.toml", &set.toml).map_err(|e| Fail::new("harness", e.to_string()))?;
    let config = ProjectConfig::from_file(std::path::Path::new("project.toml")).map_err(|e| Fail::new("settings", format!("{e:?}")))?;
    let p = processed(&l)?;
    find(&t, &p)?;
    let s = run(database(), &p).map_err(|e| Fail::new("rejected", format!("{:?}", errors(&e))))?;
    let addon = Addon::test_addon();
    if let Some((a, b)) = set.required {
        let file = p.sources()[0].0.clone();
        addon.build_data().set_required_version(Version::new(u32::from(a), u32::from(b), 0, None), file, 0..1);
    }
    let got = analyze(&s, Some(&config), &p, Arc::new(addon), shared());
    let files = WorkspaceFiles::new();
    // where the tokens begin
    let place = |i: usize| (l.files[l.places[i].0].0.clone(), l.offsets[i]);
    let mut left = want;
    for code in got {
        let Some(diag) = code.diagnostic() else {
            fail!("no text", "{} {}", code.ident(), code.message());
        };
        let text = diag.to_string(&files);
        let marks: BTreeSet<(String, usize)> = diag
            .labels
            .iter()
            .filter(|l| !(code.ident() == "L-S01" || code.ident() == "L-S02IV") || l.to_codespan().style == hemtt_style())
            .map(|l| (l.file().filename(), l.to_codespan().range.start))
            .collect();
        for lab in &diag.labels {
            let r = lab.to_codespan().range;
            ensure!(r.start <= r.end, "reversed label", "{r:?}\n{text}");
        }
        let found = left.iter().position(|w| {
            w.code == code.ident()
                && match w.code {
                    "L-S01" => marks.len() == 1 && w.at.iter().any(|i| marks.contains(&place(*i))),
                    // the bracket, or what comes first behind it
                    "L-S07" => marks.len() == 1 && w.at.iter().any(|i| {
                        let (a, b) = (place(*i), place(*i + 1));
                        marks.iter().all(|m| a.0 != b.0 || (a <= *m && *m <= b))
                    }),
                    _ => w.at.iter().map(|i| place(*i)).collect::<BTreeSet<_>>() == marks,
                }
        });
        let Some(i) = found else {
            fail!("not expected", "{} {} at {marks:?}; still expected: {:?}\n{text}", code.ident(), code.message(), left.iter().map(|w| (w.code, w.at.iter().map(|i| place(*i)).collect::<Vec<_>>())).collect::<Vec<_>>());
        };
        let w = left.remove(i);
        if let (Some(end), true) = (w.end, w.at.len() == 1) {
            let first = *w.at.iter().next().expect("one");
            // all of it is in one file and the label ends in it
            if (first..=end).all(|i| place(i).0 == place(first).0) {
                let last = l.offsets[end];
                let bracket = matches!(&t[end], Tok::Op(_));
                let range = diag.labels.first().map(|l| l.to_codespan().range).unwrap_or_default();
                let ends = l.ends[end];
                let fine = if bracket { range.end >= l.ends[end - 1] && range.end <= ends } else { range.end == ends };
                ensure!(fine, "end", "{} ends at {} instead of {last}..{ends}\n{text}", w.code, range.end);
                c.note("marked to its end");
            }
        }
        let severity = w.severity.unwrap_or(set.severity[w.code]);
        if w.code != "L-S02IC" {
            ensure!(code.severity() == severity && diag.severity == severity, "severity", "{} is {:?} instead of {severity:?}", w.code, code.severity());
        }
        if let Some(want) = w.suggestion {
            let got = code.suggestion().unwrap_or_default();
            let want = meaning(&want).map_err(|e| Fail::new("harness", e))?;
            match meaning(&got) {
                Ok(m) => ensure!(m == want, "suggestion", "{} suggests {got:?}: {m} instead of {want}", w.code),
                Err(e) => fail!("suggestion", "{} suggests {got:?}: {e}", w.code),
            }
        }
    }
    ensure!(left.is_empty(), "missing", "{left:?}");
    Ok(())
}
fn hemtt_style() -> codespan_reporting::diagnostic::LabelStyle {
    codespan_reporting::diagnostic::LabelStyle::Primary
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "Q03",
        level: "exploration",
        rule: "at least one report is expected",
        facets: vec![Facet::new("lints", 20_000, 300_000, lints)],
        probes: vec![],
        assumptions: &["the list of commands and events is a stand-in for the wiki of the game"],
    }]
}
