//! Runs the obligations of one property, writes evidence and verdict lines.
use crate::load::Program;
use crate::spec::*;
use serde_json::json;
use std::collections::HashMap;
use std::path::Path;
use std::rc::Rc;

pub struct World {
    pub repo: String,
    pub verif: String,
    pub progs: HashMap<String, Rc<Program>>,
}
impl World {
    /// the repository without any specification
    pub fn prog(&mut self, feat: &str) -> Result<Rc<Program>, String> {
        if let Some(p) = self.progs.get(feat) {
            return Ok(p.clone());
        }
        let p = Rc::new(Program::load(Path::new(&self.repo), &[feat.to_string()])?);
        self.progs.insert(feat.into(), p.clone());
        Ok(p)
    }
}
pub fn quiet_panics() {
    if std::env::var_os("VG_BT").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}
/// what the repository declares: names of functions, constants, types and variants; fields as `Type.field`
pub fn declared(w: &mut World) -> Result<std::collections::BTreeSet<String>, String> {
    let mut out = std::collections::BTreeSet::new();
    for feat in ["3d", "2d"] {
        let p = w.prog(feat)?;
        out.extend(p.fns.iter().map(|f| f.name.clone()));
        out.extend(p.consts.iter().map(|c| c.name.clone()));
        out.extend(p.aliases.iter().map(|c| c.0.clone()));
        for s in &p.structs {
            let n = s.name.split('@').next().unwrap();
            out.insert(n.into());
            out.extend(s.fields.iter().map(|f| format!("{n}.{}", f.0)));
        }
        for e in &p.enums {
            out.insert(e.name.clone());
            out.extend(e.variants.iter().map(|v| v.0.clone()));
        }
    }
    Ok(out)
}
fn identifiers(t: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Literal(l) => {
                // a position in a tuple, or two of them
                for k in l.to_string().split('.') {
                    out.insert(k.into());
                }
            }
            proc_macro2::TokenTree::Group(g) => identifiers(g.stream(), out),
            _ => {}
        }
    }
}
/// A specification in terms of something that has been renamed or removed says nothing about the code.
fn without_anchor(p: &Program, sid: usize, gone: &[String]) -> Option<String> {
    use quote::ToTokens;
    let mut ids = std::collections::BTreeSet::new();
    let mut work = vec![sid];
    let mut seen = vec![sid];
    while let Some(i) = work.pop() {
        let mut own = std::collections::BTreeSet::new();
        if let Some(b) = &p.fns[i].block {
            identifiers(b.to_token_stream(), &mut own);
        }
        identifiers(p.fns[i].sig.to_token_stream(), &mut own);
        for a in &p.fns[i].attrs {
            identifiers(a.to_token_stream(), &mut own);
        }
        for n in &own {
            for k in p.by_name.get(n).into_iter().flatten() {
                if p.fns[*k].file.starts_with("spec/") && !seen.contains(k) {
                    seen.push(*k);
                    work.push(*k);
                }
            }
        }
        ids.extend(own);
    }
    gone.iter().find(|g| ids.contains(g.rsplit('.').next().unwrap())).cloned()
}
pub fn spec_obligations(w: &mut World, id: &str, only: Option<&str>, verbose: bool) -> Result<Vec<Ob>, String> {
    let path = format!("{}/spec/{id}.rs", w.verif);
    let mut out: Vec<Ob> = vec![];
    let mut scenarios: Vec<(usize, Vec<String>)> = vec![];
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(_) => return Ok(out),
    };
    let now = declared(w)?;
    let gone: Vec<String> = std::fs::read_to_string(format!("{}/spec/baseline.txt", w.verif))
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.is_empty() && !now.contains(*l))
        .map(|l| l.to_string())
        .collect();
    for feat in ["3d", "2d"] {
        // only load a feature set some specification asks for
        let base = w.prog(feat)?;
        let mut p = (*base).clone();
        p.add_source(&format!("spec/{id}.rs"), &text, &[])?;
        let mut todo = vec![];
        for f in p.fns.iter_mut() {
            if f.file.starts_with("spec/") {
                if let Some(o) = spec_opts(&f.attrs) {
                    f.in_test = true;
                    if o.feature.as_deref().unwrap_or("3d") == feat {
                        todo.push((f.id, o));
                    }
                }
            }
        }
        if todo.is_empty() {
            continue;
        }
        let p = Rc::new(p);
        for (sid, o) in todo {
            if let Some(x) = only {
                if !p.fns[sid].qual().contains(x) {
                    continue;
                }
            }
            let r = guarded(|| check_fn(&p, sid, &o, verbose));
            if !o.scenario.is_empty() {
                scenarios.push((out.len(), o.scenario.clone()));
            }
            out.push(match r {
                Ok(mut ob) => {
                    if let Verdict::Violated(m) = &ob.verdict {
                        if let Some(g) = without_anchor(&p, sid, &gone) {
                            ob.verdict = Verdict::Unknown(format!("anchor not found: {g}; {m}"));
                        }
                    }
                    ob
                }
                Err(e) => {
                    let f = &p.fns[sid];
                    Ob {
                        key: f.qual(),
                        rule: "value graph equals specification".into(),
                        target: f.qual(),
                        file: String::new(),
                        line: 0,
                        verdict: Verdict::Unknown(format!("analysis gave up: {e}")),
                        analysed: vec![],
                        detail: String::new(),
                    }
                }
            });
        }
    }
    Ok(choose_scenarios(out, &scenarios))
}
/// The work of some functions can be divided between them in several ways. Each way is a scenario, a set of
/// obligations; one that holds as a whole is enough, and there is a violation only if each has one.
fn choose_scenarios(mut obs: Vec<Ob>, scenarios: &[(usize, Vec<String>)]) -> Vec<Ob> {
    use std::collections::{BTreeMap, BTreeSet};
    let mut groups: BTreeMap<String, BTreeMap<String, Vec<usize>>> = BTreeMap::new();
    for (i, names) in scenarios {
        for n in names {
            let (g, s) = n.split_once(':').unwrap_or(("", n));
            groups.entry(g.into()).or_default().entry(s.into()).or_default().push(*i);
        }
    }
    let mut drop = BTreeSet::new();
    for sc in groups.values() {
        let violated = |v: &Vec<usize>| v.iter().filter(|i| matches!(obs[**i].verdict, Verdict::Violated(_))).count();
        let open = |v: &Vec<usize>| v.iter().filter(|i| !matches!(obs[**i].verdict, Verdict::Holds)).count();
        let best = sc.values().min_by_key(|v| (violated(v), open(v))).unwrap().clone();
        let all: BTreeSet<usize> = sc.values().flatten().cloned().collect();
        drop.extend(all.into_iter().filter(|i| !best.contains(i)));
    }
    let mut i = 0;
    obs.retain(|_| {
        i += 1;
        !drop.contains(&(i - 1))
    });
    obs
}
pub fn check(w: &mut World, id: &str, tier: &str, only: Option<&str>, verbose: bool) -> i32 {
    let t0 = std::time::Instant::now();
    let mut obs = vec![];
    let mut fatal = vec![];
    match spec_obligations(w, id, only, verbose) {
        Ok(v) => obs.extend(v),
        Err(e) => fatal.push(e),
    }
    if only.is_none() {
        match guarded(|| crate::rules::obligations(w, id)) {
            Ok(Ok(v)) => obs.extend(v),
            Ok(Err(e)) => fatal.push(e),
            Err(e) => fatal.push(format!("rule engine: {e}")),
        }
    }
    let known = known_findings(&w.verif, id);
    let mut viol = vec![];
    let mut kf = vec![];
    let (mut holds, mut unknown) = (0, 0);
    for o in &obs {
        match &o.verdict {
            Verdict::Holds => holds += 1,
            Verdict::Unknown(_) => unknown += 1,
            Verdict::Violated(m) => {
                if known.iter().any(|(k, r)| *k == o.key && r.as_ref().map(|r| r == m).unwrap_or(true)) {
                    kf.push((o.key.clone(), m.clone()));
                } else {
                    viol.push(o.clone());
                }
            }
        }
    }
    // every anchor gone: fail closed
    if obs.is_empty() && fatal.is_empty() {
        fatal.push("no obligation could be formed".into());
    } else if !obs.is_empty() && obs.iter().all(|o| matches!(&o.verdict, Verdict::Unknown(m) if m.starts_with("anchor not found"))) {
        fatal.push("none of the code this property is anchored in exists any more".into());
    }
    let ev_dir = format!("{}/evidence", w.verif);
    let _ = std::fs::create_dir_all(&ev_dir);
    let list: Vec<_> = obs
        .iter()
        .map(|o| {
            json!({
                "obligation": o.key, "rule": o.rule, "file": o.file, "line": o.line,
                "verdict": match &o.verdict { Verdict::Holds => "holds", Verdict::Violated(_) => "violated", Verdict::Unknown(_) => "undecided" },
                "reason": match &o.verdict { Verdict::Holds => String::new(), Verdict::Violated(m) | Verdict::Unknown(m) => m.clone() },
                "analysed": o.analysed, "detail": o.detail,
            })
        })
        .collect();
    let mut fns: Vec<&String> = obs.iter().flat_map(|o| o.analysed.iter()).collect();
    fns.sort();
    fns.dedup();
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: each obligation compares the value graph of a function (all paths at once, helpers inlined) with its specification, or applies a dedicated dataflow/structure rule. Nothing is executed.",
            "obligations": obs.len(),
            "discharged": holds,
            "undecided": unknown,
            "violated": viol.len() + kf.len(),
            "functions_analysed": fns,
            "list": list,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = std::fs::write(format!("{ev_dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap());
    for (k, m) in &kf {
        println!("KNOWN-FINDING: property={id} {k}: {}", clip(m));
    }
    for o in &obs {
        if verbose || (matches!(o.verdict, Verdict::Unknown(_)) && std::env::var("VG_SHOW").is_ok()) {
            println!("[{}] {} -- {:?}", o.rule, o.key, o.verdict);
        }
    }
    println!("{id}: {} obligations, {holds} hold, {unknown} undecided, {} known findings, {} violated ({:.1} s)", obs.len(), kf.len(), viol.len(), t0.elapsed().as_secs_f64());
    if viol.is_empty() && fatal.is_empty() {
        return 0;
    }
    let rp = format!("{ev_dir}/{id}.replay.txt");
    let mut text = String::new();
    for e in &fatal {
        println!("  {e}");
        text.push_str(&format!("{e}\n"));
    }
    for o in &viol {
        if let Verdict::Violated(m) = &o.verdict {
            let s = format!("{}:{} [{}] {}\n    {}\n", o.file, o.line, o.rule, o.key, m);
            print!("  {s}");
            text.push_str(&s);
        }
    }
    text.push_str(&format!("\nre-run: /verif/check.sh {id}\n"));
    let _ = std::fs::write(&rp, text);
    println!("VIOLATION property={id} replay={rp}");
    1
}
fn known_findings(verif: &str, id: &str) -> Vec<(String, Option<String>)> {
    let p = format!("{verif}/known-findings.json");
    let v: serde_json::Value = match std::fs::read_to_string(p).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => return vec![],
    };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|x| x["property"] == id)
                .filter_map(|x| x["key"].as_str().map(|s| (s.to_string(), x["reason"].as_str().map(|r| r.to_string()))))
                .collect()
        })
        .unwrap_or_default()
}
