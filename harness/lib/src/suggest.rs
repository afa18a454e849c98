//! Suggestions for misspelt names.
use hemtt_common::similar_values;
use std::collections::BTreeMap;
use vpc::{ensure, fail, Case, Facet, Property, D, R};

/// Edits between two texts.
fn edits(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut t = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            t[i][j] = if i == 0 || j == 0 { i + j } else { (t[i - 1][j] + 1).min(t[i][j - 1] + 1).min(t[i - 1][j - 1] + usize::from(a[i - 1] != b[j - 1])) };
        }
    }
    t[a.len()][b.len()]
}
/// The closest three at most, in any order among equals.
fn judge(asked: &str, known: &[(String, usize)], got: &[String]) -> R {
    let of: BTreeMap<&str, usize> = known.iter().map(|(n, e)| (n.as_str(), *e)).collect();
    let mut best: Vec<usize> = known.iter().map(|k| k.1).filter(|e| *e <= 3).collect();
    best.sort_unstable();
    best.truncate(3);
    let mut now = vec![];
    for g in got {
        let Some(e) = of.get(g.as_str()) else { fail!("unknown", "{g} is suggested for {asked}, but not among {known:?}") };
        now.push(*e);
    }
    ensure!(now == best, "suggestions", "{got:?} with {now:?} edits for {asked:?}, instead of {best:?}: {known:?}");
    Ok(())
}
fn near(d: &mut D, name: &str) -> String {
    let mut v: Vec<char> = name.chars().collect();
    for _ in 0..d.below(5) {
        let at = d.usize(0, v.len());
        let x = *d.pick(&['a', 'B', '_', '0', 'x']);
        match d.below(3) {
            0 => v.insert(at, x),
            1 if at < v.len() => v[at] = x,
            _ if at < v.len() => drop(v.remove(at)),
            _ => {}
        }
    }
    if v.first().map_or(true, |c| !c.is_ascii_alphabetic()) {
        v.insert(0, 'n');
    }
    v.into_iter().collect()
}
fn names(d: &mut D, base: &str) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..d.usize(0, 7) {
        let n = near(d, base);
        if !v.contains(&n) {
            v.push(n);
        }
    }
    v
}

fn closest(d: &mut D, c: &mut Case) -> R {
    let asked = d.string_of(&['a', 'B', '_', 'é', 'É', 'ß', 'x'], 0, 8);
    let most = *d.pick(&[8, 8, 8, 40]);
    let mut known: Vec<String> = d.vec(most, |d| if d.bool() { d.string_of(&['a', 'b', '_', 'É', 'ß', 'x'], 0, 8) } else { near(d, &asked) });
    known.sort();
    known.dedup();
    d.shuffle(&mut known);
    c.input(&format!("{asked} {known:?}"));
    let hay: Vec<&str> = known.iter().map(String::as_str).collect();
    let with: Vec<(String, usize)> = known.iter().map(|k| (k.clone(), edits(&k.to_lowercase(), &asked.to_lowercase()))).collect();
    c.nontrivial(with.iter().any(|w| w.1 <= 3) && with.iter().any(|w| w.1 > 3));
    judge(&asked, &with, &similar_values(&asked, &hay).into_iter().map(String::from).collect::<Vec<_>>())
}

/// Those of the preprocessor.
fn directives(d: &mut D, c: &mut Case) -> R {
    let base = *d.pick(&["VALUE", "some_name", "ab", "X"]);
    let asked = match d.below(5) {
        3 => {
            let n = *d.pick(&["suppress", "flag"]);
            near(d, n)
        }
        4 => {
            let n = *d.pick(&["pw3_padded_arg", "pw3_ignore_format", "pe23_ignore_has_include"]);
            near(d, n)
        }
        _ => near(d, base),
    };
    let kind = d.usize(0, 4);
    let mut text = String::new();
    let mut known: Vec<(String, usize)> = vec![];
    for n in names(d, if kind < 2 { &asked } else { base }) {
        if n == asked {
            continue;
        }
        match d.below(4) {
            0 => text.push_str(&format!("#define {n}\n")),
            1 => text.push_str(&format!("#define {n}(x) x\n")),
            _ => {
                text.push_str(&format!("#define {n} 1\n"));
                if kind < 2 {
                    let e = edits(&n, &asked);
                    known.push((n.clone(), e));
                    if d.chance(1, 6) {
                        text.push_str(&format!("#undef {n}\n"));
                        known.pop();
                    }
                }
            }
        }
    }
    let lower = |of: &[&str]| of.iter().map(|k| ((*k).to_string(), edits(k, &asked.to_lowercase()))).collect::<Vec<_>>();
    let (ident, line) = match kind {
        0 => ("PE8", format!("#if {asked}\n#endif\n")),
        1 => ("PE7", if d.bool() { format!("#define {asked}\n#if {asked} == 1\n#endif\n") } else { format!("#define {asked}(x) x\n#if {asked}\n#endif\n") }),
        2 => {
            known = lower(&["suppress"]);
            ("PE19", format!("#pragma hemtt {asked} pw3_padded_arg\n"))
        }
        3 => {
            known = lower(&["pw3_padded_arg"]);
            ("PE21", format!("#pragma hemtt suppress {asked}\n"))
        }
        _ => {
            known = lower(&["pw3_ignore_format", "pe23_ignore_has_include"]);
            ("PE22", format!("#pragma hemtt flag {asked}\n"))
        }
    };
    if kind >= 2 && (["suppress", "flag"].contains(&&asked[..]) || known.iter().any(|k| k.1 == 0)) {
        return Ok(());
    }
    text.push_str(&line);
    c.input(&text);
    c.note(ident);
    c.nontrivial(known.iter().any(|w| w.1 <= 3));
    let root = crate::ws::memory(&[("main.hpp", text.clone())]);
    let code = match hemtt_preprocessor::Processor::run(&root.join("main.hpp").expect("join")) {
        Ok(_) => fail!("missed", "nothing is reported for\n{text}"),
        Err((_, hemtt_preprocessor::Error::Code(c))) => c,
        Err((_, e)) => fail!("missed", "{e:?} for\n{text}"),
    };
    ensure!(code.ident() == ident, "other", "{} instead of {ident} for\n{text}", code.ident());
    let help = code.help();
    let got: Vec<String> = match &help {
        None => vec![],
        Some(h) if ident == "PE7" && h.contains("#ifdef") => {
            ensure!(code.suggestion() == Some(format!("#ifdef {asked}")), "suggestion", "{:?}", code.suggestion());
            vec![]
        }
        Some(h) => h.split('`').skip(1).step_by(2).map(String::from).collect(),
    };
    ensure!(help.is_some() || ident != "PE7", "no help", "{text}");
    if ident == "PE19" {
        ensure!(code.suggestion() == got.first().cloned(), "suggestion", "{:?} with {got:?}", code.suggestion());
    }
    judge(&asked, &known, &got)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "G06",
        level: "exploration",
        rule: "one known name is close enough (and one is not)",
        facets: vec![Facet::new("closest", 40_000, 2_000_000, closest), Facet::new("directives", 40_000, 1_000_000, directives)],
        probes: vec![],
        assumptions: &[],
    }]
}
