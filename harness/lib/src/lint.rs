//! The lint manager: which lints run with which settings.
use hemtt_common::config::{LintConfig, LintConfigOverride, ProjectConfig};
use hemtt_workspace::lint::{AnyLintGroupRunner, AnyLintRunner, Lint, LintGroupRunner, LintManager, LintRunner};
use hemtt_workspace::reporting::{Code, Codes, Processed, Severity};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use vpc::{ensure, fail, Case, Facet, Property, D, R};

type Log = Mutex<Vec<(String, Severity, BTreeMap<String, String>)>>;
const IDENTS: [&str; 8] = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"];
const SEVERITIES: [Severity; 5] = [Severity::Warning, Severity::Error, Severity::Help, Severity::Note, Severity::Bug];

#[derive(Clone, Debug)]
struct Spec {
    ident: &'static str,
    severity: Severity,
    enabled: bool,
    options: BTreeMap<String, i64>,
    minimum: Option<Severity>,
    /// what the runners look at
    targets: Vec<bool>,
}
fn toml_options(o: &BTreeMap<String, i64>) -> HashMap<String, toml::Value> {
    o.iter().map(|(k, v)| (k.clone(), toml::Value::Integer(*v))).collect()
}
impl Lint<Log> for Spec {
    fn ident(&self) -> &'static str {
        self.ident
    }
    fn description(&self) -> &'static str {
        ""
    }
    fn documentation(&self) -> &'static str {
        ""
    }
    fn default_config(&self) -> LintConfig {
        LintConfig::new(self.severity, toml_options(&self.options)).with_enabled(self.enabled)
    }
    fn minimum_severity(&self) -> Severity {
        self.minimum.unwrap_or(self.severity)
    }
    fn runners(&self) -> Vec<Box<dyn AnyLintRunner<Log>>> {
        self.targets.iter().map(|t| if *t { Box::new(OnNumber(self.ident)) as Box<dyn AnyLintRunner<Log>> } else { Box::new(OnText(self.ident)) }).collect()
    }
}
struct Found(String);
impl Code for Found {
    fn ident(&self) -> &'static str {
        "FOUND"
    }
    fn message(&self) -> String {
        self.0.clone()
    }
}
fn record(log: &Log, what: String, config: &LintConfig) {
    let options = ["a", "b", "c", "d"].iter().filter_map(|k| config.option(k).map(|v| ((*k).to_string(), v.to_string()))).collect();
    log.lock().expect("log").push((what, config.severity(), options));
}
struct OnNumber(&'static str);
impl LintRunner<Log> for OnNumber {
    type Target = u32;
    fn run(&self, _: Option<&ProjectConfig>, config: &LintConfig, _: Option<&Processed>, target: &u32, data: &Log) -> Codes {
        record(data, format!("{} number {target}", self.0), config);
        vec![Arc::new(Found(format!("{} number", self.0)))]
    }
}
struct OnText(&'static str);
impl LintRunner<Log> for OnText {
    type Target = String;
    fn run(&self, _: Option<&ProjectConfig>, config: &LintConfig, _: Option<&Processed>, target: &String, data: &Log) -> Codes {
        record(data, format!("{} text {target}", self.0), config);
        vec![Arc::new(Found(format!("{} text", self.0)))]
    }
}
struct Group(usize);
impl LintGroupRunner<Log> for Group {
    type Target = u32;
    fn run(&self, _: Option<&ProjectConfig>, config: HashMap<String, LintConfig>, _: Option<&Processed>, _: &u32, data: &Log) -> Codes {
        let mut v: Vec<_> = config.iter().collect();
        v.sort_by_key(|x| x.0);
        for (k, c) in v {
            record(data, format!("{k} group {}", self.0), c);
        }
        vec![Arc::new(Found(format!("group {}", self.0)))]
    }
}
fn options(d: &mut D) -> BTreeMap<String, i64> {
    d.vec(3, |d| ((*d.pick(&["a", "b", "c", "d"])).to_string(), d.below(5) as i64)).into_iter().collect()
}
#[derive(Debug)]
struct Set {
    enabled: Option<bool>,
    severity: Option<Severity>,
    options: BTreeMap<String, i64>,
}

fn manager(d: &mut D, c: &mut Case) -> R {
    let mut sets: BTreeMap<&str, Set> = BTreeMap::new();
    for i in IDENTS {
        if d.bool() {
            let enabled = [None, Some(true), Some(false)][d.weighted(&[3, 1, 2])];
            let severity = if d.bool() { Some(*d.pick(&SEVERITIES)) } else { None };
            sets.insert(i, Set { enabled, severity, options: options(d) });
        }
    }
    let mut configs: HashMap<String, LintConfigOverride> = HashMap::new();
    for (k, s) in &sets {
        let mut t = String::new();
        if let Some(e) = s.enabled {
            t += &format!("enabled = {e}\n");
        }
        if let Some(s) = s.severity {
            t += &format!("severity = \"{s:?}\"\n");
        }
        if !s.options.is_empty() || d.chance(1, 6) {
            t += "[options]\n";
            for (k, v) in &s.options {
                t += &format!("{k} = {v}\n");
            }
        }
        match toml::from_str::<LintConfigOverride>(&t) {
            Ok(x) => configs.insert((*k).to_string(), x),
            Err(e) => fail!("settings", "{e}: {t}"),
        };
    }
    let mut left = IDENTS.to_vec();
    d.shuffle(&mut left);
    let mut m = LintManager::<Log>::new(configs);
    let mut have: Vec<Spec> = vec![];
    let mut groups: Vec<Vec<Spec>> = vec![];
    let mut log = format!("{sets:?}");
    for _ in 0..d.usize(1, 5) {
        let how = d.weighted(&[2, 3, 2]);
        let n = if how == 0 { 1 } else { d.usize(0, 4) };
        let mut batch = vec![];
        for _ in 0..n {
            // sometimes one the manager has already
            let ident = if !have.is_empty() && d.chance(1, 10) {
                let i = d.pick(&have).ident;
                if batch.iter().any(|b: &Spec| b.ident == i) {
                    continue;
                }
                i
            } else if let Some(i) = left.pop() {
                i
            } else {
                continue;
            };
            batch.push(Spec {
                ident,
                severity: *d.pick(&SEVERITIES[..4]),
                enabled: !d.chance(1, 5),
                options: options(d),
                minimum: if d.chance(1, 3) { Some(*d.pick(&SEVERITIES)) } else { None },
                targets: d.vec_between(0, 3, |d| d.bool()),
            });
        }
        let mut problems = 0;
        for b in &batch {
            problems += usize::from(have.iter().any(|h| h.ident == b.ident));
            if let Some(s) = sets.get(b.ident) {
                let minimum = b.minimum.unwrap_or(b.severity);
                problems += usize::from(s.severity.unwrap_or(b.severity) < minimum);
                problems += usize::from(!s.enabled.unwrap_or(b.enabled) && minimum == Severity::Error);
            }
        }
        log += &format!("\n{} {batch:?}: {problems} problems", ["push", "extend", "group"][how]);
        c.input(&log);
        let arc = |b: &Spec| Arc::new(Box::new(b.clone()) as Box<dyn Lint<Log>>);
        let lints: Vec<_> = batch.iter().map(arc).collect();
        let r = match how {
            0 if batch.is_empty() => continue,
            0 => m.push(arc(&batch[0])),
            1 => m.extend(lints),
            _ => m.push_group(lints, Box::new(Group(groups.len())) as Box<dyn AnyLintGroupRunner<Log>>),
        };
        match r {
            Ok(()) => ensure!(problems == 0, "accepted", "{batch:?} with {sets:?}"),
            Err(e) => {
                ensure!(problems == e.len(), "problems", "{problems}, reported {:?}", e.iter().map(|e| e.message()).collect::<Vec<_>>());
                c.note("refused");
                continue;
            }
        }
        if how == 2 {
            groups.push(batch);
        } else {
            have.extend(batch);
        }
    }
    c.note_if(!groups.is_empty(), "groups");
    c.nontrivial(have.len() + groups.len() >= 2 && !sets.is_empty());
    let effective = |s: &Spec| {
        let set = sets.get(s.ident);
        let mut o = s.options.clone();
        if let Some(x) = set {
            o.extend(x.options.clone());
        }
        (
            set.and_then(|x| x.enabled).unwrap_or(s.enabled),
            set.and_then(|x| x.severity).unwrap_or(s.severity),
            o.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<BTreeMap<_, _>>(),
        )
    };
    for round in 0..3 {
        let mut want = vec![];
        let mut codes = vec![];
        for s in &have {
            let (on, severity, o) = effective(s);
            for t in s.targets.iter().filter(|t| on && **t == (round == 0) && round < 2) {
                let what = if *t { "number 7" } else { "text x" };
                want.push((format!("{} {what}", s.ident), severity, o.clone()));
                codes.push(format!("{} {}", s.ident, if *t { "number" } else { "text" }));
            }
        }
        if round == 0 {
            for (i, g) in groups.iter().enumerate() {
                let mut on: Vec<_> = g.iter().filter(|s| effective(s).0).collect();
                on.sort_by_key(|s| s.ident);
                if !on.is_empty() {
                    codes.push(format!("group {i}"));
                }
                for s in on {
                    let (_, severity, o) = effective(s);
                    want.push((format!("{} group {i}", s.ident), severity, o));
                }
            }
        }
        let data = Log::default();
        let got = match round {
            0 => m.run(&data, None, None, &7_u32),
            1 => m.run(&data, None, None, &"x".to_string()),
            _ => m.run(&data, None, None, &7_i64),
        };
        let ran = data.into_inner().expect("log");
        ensure!(ran == want, "ran", "{ran:?}\ninstead of {want:?}");
        let got: Vec<String> = got.iter().map(|c| c.message()).collect();
        ensure!(got == codes, "reports", "{got:?}\ninstead of {codes:?}");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property { id: "W04", level: "exploration", rule: "at least two lints or groups and a setting", facets: vec![Facet::new("manager", 40_000, 2_000_000, manager)], probes: vec![], assumptions: &[] }]
}
