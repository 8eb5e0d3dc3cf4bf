//! The order of systems: registrations with their stages and before/after constraints are
//! collected from the source, and required precedences are decided by stage order and by
//! reachability within a stage.
use super::spmd::show;
use crate::load::{FnInfo, Program};
use crate::report::World;
use crate::spec::{Ob, Verdict};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;

#[derive(Clone, Debug)]
struct Reg {
    startup: bool,
    stage: Option<String>,
    system: String,
    criteria: Vec<String>,
    file: String,
    line: usize,
    func: String,
}
#[derive(Default)]
struct Facts {
    regs: Vec<Reg>,
    /// stage (None: any), earlier, later
    edges: BTreeSet<(Option<String>, String, String)>,
    /// label -> systems
    labels: BTreeMap<String, BTreeSet<String>>,
    unknown: bool,
}
fn last(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
#[derive(Default, Clone)]
struct Chain {
    root: String,
    after: Vec<String>,
    before: Vec<String>,
    labels: Vec<String>,
    criteria: Vec<String>,
    line: usize,
}
const LINKS: &[&str] = &["after", "before", "label", "with_run_criteria", "ambiguous_with", "into_descriptor", "exclusive_system", "at_start", "at_end", "before_commands", "pipe"];
fn name_of(e: &syn::Expr, lets: &HashMap<String, syn::Expr>) -> Option<String> {
    match e {
        syn::Expr::Path(p) => {
            if let Some(i) = p.path.get_ident() {
                if let Some(d) = lets.get(&i.to_string()) {
                    return name_of(d, lets);
                }
            }
            Some(last(&p.path))
        }
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) => Some(last(&p.path)),
            _ => None,
        },
        syn::Expr::MethodCall(m) if LINKS.contains(&m.method.to_string().as_str()) || m.method == "as_system_label" => name_of(&m.receiver, lets),
        syn::Expr::Paren(p) => name_of(&p.expr, lets),
        syn::Expr::Struct(s) => Some(last(&s.path)),
        _ => None,
    }
}
fn chain(e: &syn::Expr, lets: &HashMap<String, syn::Expr>, c: &mut Chain) -> Option<()> {
    match e {
        syn::Expr::MethodCall(m) if LINKS.contains(&m.method.to_string().as_str()) => {
            let n = m.method.to_string();
            if let Some(a) = m.args.first() {
                match n.as_str() {
                    "after" => c.after.push(name_of(a, lets)?),
                    "before" => c.before.push(name_of(a, lets)?),
                    "label" => c.labels.push(name_of(a, lets)?),
                    "with_run_criteria" => c.criteria.push(name_of(a, lets)?),
                    _ => {}
                }
            }
            c.line = m.method.span().start().line;
            chain(&m.receiver, lets, c)
        }
        syn::Expr::Paren(p) => chain(&p.expr, lets, c),
        syn::Expr::Path(p) => {
            if let Some(i) = p.path.get_ident() {
                if let Some(d) = lets.get(&i.to_string()) {
                    return chain(d, lets, c);
                }
            }
            c.root = last(&p.path);
            if c.line == 0 {
                c.line = p.path.segments.last()?.ident.span().start().line;
            }
            Some(())
        }
        syn::Expr::Call(_) => {
            c.root = name_of(e, lets)?;
            Some(())
        }
        _ => None,
    }
}
struct Find<'a> {
    facts: &'a mut Facts,
    f: &'a FnInfo,
    lets: HashMap<String, syn::Expr>,
}
fn stage_of(e: &syn::Expr, lets: &HashMap<String, syn::Expr>) -> Option<String> {
    match e {
        syn::Expr::Path(p) => {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.len() == 1 {
                return lets.get(&s[0]).and_then(|d| stage_of(d, lets));
            }
            let k = &s[s.len() - 2];
            ["Stages", "StartupStages", "CoreStage"].contains(&k.as_str()).then(|| format!("{}::{}", k, s[s.len() - 1]))
        }
        syn::Expr::Paren(p) => stage_of(&p.expr, lets),
        _ => None,
    }
}
impl<'ast> Visit<'ast> for Find<'_> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init {
            match &l.pat {
                syn::Pat::Ident(p) => {
                    self.lets.insert(p.ident.to_string(), (*i.expr).clone());
                }
                syn::Pat::Tuple(t) => {
                    if let Some(syn::Pat::Ident(p)) = t.elems.first() {
                        self.lets.insert(p.ident.to_string(), (*i.expr).clone());
                    }
                }
                _ => {}
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        let args: Vec<&syn::Expr> = m.args.iter().collect();
        if n.contains("system_set") || n == "chain" && show(m).contains("_system") {
            self.facts.unknown = true;
        }
        let reg = match n.as_str() {
            "add_system_to_stage" | "add_well_ordered_system_to_stage" if args.len() >= 2 => Some((false, stage_of(args[0], &self.lets), args[1])),
            "add_startup_system_to_stage" | "add_well_ordered_system_to_startup_stage" if args.len() >= 2 => Some((true, stage_of(args[0], &self.lets), args[1])),
            "add_startup_system" if args.len() == 1 => Some((true, Some("StartupStages::Initial".into()), args[0])),
            _ => None,
        };
        if let Some((startup, stage, e)) = reg {
            let mut c = Chain::default();
            if chain(e, &self.lets, &mut c).is_some() && !c.root.is_empty() {
                self.facts.regs.push(Reg {
                    startup,
                    stage: stage.clone(),
                    system: c.root.clone(),
                    criteria: c.criteria.clone(),
                    file: self.f.file.clone(),
                    line: if c.line > 0 { c.line } else { m.method.span().start().line },
                    func: self.f.qual(),
                });
                for x in &c.after {
                    self.facts.edges.insert((stage.clone(), x.clone(), c.root.clone()));
                }
                for x in &c.before {
                    self.facts.edges.insert((stage.clone(), c.root.clone(), x.clone()));
                }
                for l in &c.labels {
                    self.facts.labels.entry(l.clone()).or_default().insert(c.root.clone());
                }
            }
            self.visit_expr(&m.receiver);
            return;
        }
        if n == "after" || n == "before" || n == "label" {
            let mut c = Chain::default();
            let e = syn::Expr::MethodCall(m.clone());
            if chain(&e, &self.lets, &mut c).is_some() && !c.root.is_empty() {
                for x in &c.after {
                    self.facts.edges.insert((None, x.clone(), c.root.clone()));
                }
                for x in &c.before {
                    self.facts.edges.insert((None, c.root.clone(), x.clone()));
                }
                for l in &c.labels {
                    self.facts.labels.entry(l.clone()).or_default().insert(c.root.clone());
                }
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
}
fn facts(prog: &Program) -> Facts {
    let mut facts = Facts::default();
    for f in &prog.fns {
        if f.in_test || !f.file.starts_with("src") || f.file.contains("test") || f.module.iter().any(|m| m.contains("test")) {
            continue;
        }
        // the wrappers themselves
        if f.file.starts_with("src/simulation/") {
            continue;
        }
        if let Some(b) = &f.block {
            let mut v = Find { facts: &mut facts, f, lets: HashMap::new() };
            v.visit_block(b);
        }
    }
    facts
}
/// the list of stages of one kind, in registration order
fn order(prog: &Program, kind: &str) -> (Vec<(String, usize)>, String, String) {
    struct S<'a>(&'a str, Vec<(String, usize)>);
    impl<'ast> Visit<'ast> for S<'_> {
        fn visit_path(&mut self, p: &'ast syn::Path) {
            let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.len() >= 2 && s[s.len() - 2] == self.0 {
                self.1.push((s[s.len() - 1].clone(), p.segments.last().unwrap().ident.span().start().line));
            }
            syn::visit::visit_path(self, p);
        }
    }
    let mut best: (Vec<(String, usize)>, String, String) = (vec![], String::new(), String::new());
    for f in prog.fns.iter().filter(|f| f.file == "src/stages.rs" && !f.in_test) {
        if let Some(b) = &f.block {
            let mut s = S(kind, vec![]);
            s.visit_block(b);
            if s.1.len() > best.0.len() {
                best = (s.1, f.qual(), f.file.clone());
            }
        }
    }
    best
}
enum Prec {
    Yes(String),
    No(String),
    Unknown(String),
}
struct Order {
    facts: Facts,
    startup: Vec<String>,
    step: Vec<String>,
}
impl Order {
    fn position(&self, r: &Reg) -> Option<usize> {
        let s = r.stage.as_ref()?;
        let (kind, name) = s.split_once("::")?;
        let list = if r.startup { &self.startup } else { &self.step };
        if kind == "CoreStage" {
            return None;
        }
        list.iter().position(|x| x == name)
    }
    fn reach(&self, stage: &str, a: &str, b: &str) -> bool {
        let expand = |n: &str| -> Vec<String> {
            match self.facts.labels.get(n) {
                Some(v) => v.iter().cloned().chain([n.to_string()]).collect(),
                None => vec![n.to_string()],
            }
        };
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut todo = vec![a.to_string()];
        while let Some(x) = todo.pop() {
            if !seen.insert(x.clone()) {
                continue;
            }
            for (s, p, q) in &self.facts.edges {
                if s.as_deref().map_or(true, |s| s == stage) && expand(p).contains(&x) {
                    for y in expand(q) {
                        if y == b {
                            return true;
                        }
                        todo.push(y);
                    }
                }
            }
        }
        false
    }
    fn precedes(&self, a: &str, b: &str, stage: Option<&str>) -> Prec {
        if self.facts.unknown {
            return Prec::Unknown("systems are also added as sets".into());
        }
        let of = |n: &str| -> Vec<&Reg> { self.facts.regs.iter().filter(|r| r.system == n && stage.map_or(true, |s| r.stage.as_deref() == Some(s))).collect() };
        let (ra, rb) = (of(a), of(b));
        if ra.is_empty() || rb.is_empty() {
            return Prec::Unknown(format!("anchor not found: {} is not added directly", if ra.is_empty() { a } else { b }));
        }
        let mut how = String::new();
        for x in &ra {
            for y in &rb {
                if x.startup != y.startup {
                    if x.startup {
                        how = "startup precedes every step".into();
                        continue;
                    }
                    return Prec::No(format!("{a} runs in every step, {b} at startup"));
                }
                let (Some(p), Some(q)) = (self.position(x), self.position(y)) else { return Prec::Unknown("stage not known".into()) };
                let (sx, sy) = (x.stage.clone().unwrap(), y.stage.clone().unwrap());
                if p < q {
                    how = format!("{sx} precedes {sy}");
                } else if p > q {
                    return Prec::No(format!("{a} runs in {sx}, after {b} in {sy}"));
                } else if self.reach(&sx, a, b) {
                    how = format!("ordered within {sx}");
                } else if self.reach(&sx, b, a) {
                    return Prec::No(format!("{a} is ordered after {b} in {sx}"));
                } else {
                    return Prec::No(format!("{a} ({}) and {b} ({}) are not ordered in {sx}", x.func, y.func));
                }
            }
        }
        Prec::Yes(how)
    }
}
fn load(prog: &Program) -> Order {
    let strip = |v: Vec<(String, usize)>| v.into_iter().map(|x| x.0).collect();
    Order { facts: facts(prog), startup: strip(order(prog, "StartupStages").0), step: strip(order(prog, "Stages").0) }
}
fn ob(key: String, rule: &str, target: String, file: String, line: usize, verdict: Verdict, analysed: String) -> Ob {
    Ob { key, rule: rule.into(), target, file, line, verdict, analysed: vec![analysed], detail: String::new() }
}
fn pair_obs(o: &Order, pairs: &[(&str, &str, Option<&str>)]) -> Vec<Ob> {
    let mut out = vec![];
    for (a, b, s) in pairs {
        let r = o.facts.regs.iter().find(|r| r.system == *b && s.map_or(true, |s| r.stage.as_deref() == Some(s)));
        let (file, line) = r.map(|r| (r.file.clone(), r.line)).unwrap_or_default();
        let (v, how) = match o.precedes(a, b, *s) {
            Prec::Yes(h) => (Verdict::Holds, h),
            Prec::No(m) => (Verdict::Violated(m), String::new()),
            Prec::Unknown(m) => (Verdict::Unknown(m), String::new()),
        };
        out.push(ob(format!("{a} before {b}{}", s.map(|s| format!(" in {s}")).unwrap_or_default()), "required precedence follows from stage order and before/after constraints", b.to_string(), file, line, v, format!("{a} -> {b}: {how}")));
    }
    out
}
const EXCHANGE: &[(&str, &str, Option<&str>)] = &[
    ("domain_decomposition_system", "set_outgoing_entities_system", None),
    ("set_outgoing_entities_system", "fill_buffers_system", None),
    ("set_outgoing_entities_system", "spawn_incoming_entities_system", None),
    ("set_outgoing_entities_system", "despawn_outgoing_entities_system", None),
    ("fill_buffers_system", "exchange_buffers_system", None),
    ("spawn_incoming_entities_system", "exchange_buffers_system", None),
    ("exchange_buffers_system", "reset_buffers_system", None),
    ("exchange_buffers_system", "reset_outgoing_entities_system", None),
    ("despawn_outgoing_entities_system", "reset_outgoing_entities_system", None),
];
const STARTUP: &[(&str, &str, Option<&str>)] = &[
    ("exchange_buffers_system", "determine_particle_ids_system", None),
    ("exchange_buffers_system", "set_domain_extents_system", None),
    ("determine_particle_ids_system", "update_id_entity_map_system", None),
    ("determine_particle_ids_system", "construct_quad_tree_system", None),
    ("set_domain_extents_system", "construct_grid_system", None),
    ("construct_quad_tree_system", "construct_grid_system", None),
    ("construct_quad_tree_system", "remap_abundances_and_energies_system", None),
    ("remap_abundances_and_energies_system", "init_sweep_system", None),
    ("construct_grid_system", "set_source_terms_system", None),
    ("read_grid_system", "set_source_terms_system", None),
    ("construct_grid_system", "compute_cell_mass_system", None),
    ("read_grid_system", "compute_cell_mass_system", None),
    ("set_source_terms_system", "init_sweep_system", None),
    ("compute_cell_mass_system", "init_sweep_system", None),
    ("construct_grid_system", "init_sweep_system", None),
    ("read_grid_system", "init_sweep_system", None),
    ("set_initial_ionized_fraction_from_electron_abundance_system", "insert_missing_components_system", None),
    ("insert_missing_components_system", "domain_decomposition_system", None),
    ("setup_time_series_output_system", "initialize_output_files_system", None),
    ("exchange_buffers_system", "compute_output_rank_assignment_system", None),
    ("init_sweep_system", "run_sweep_system", None),
    ("run_sweep_system", "rotate_directions_system", None),
    ("run_sweep_system", "sweep_optional_output_system", None),
    ("run_sweep_system", "compute_time_series_system", None),
    ("compute_time_series_system", "num_particles_at_timestep_levels_system", None),
    ("compute_time_series_system", "output_time_series_system", None),
    ("num_particles_at_timestep_levels_system", "output_time_series_system", None),
    ("run_sweep_system", "create_file_system", None),
    ("run_sweep_system", "open_file_system", None),
    ("set_cosmological_time_variables_system", "show_time_system", None),
    ("stop_simulation_system", "run_sweep_system", None),
    ("update_system", "exit_system", None),
    ("write_performance_data_system", "exit_system", None),
];
pub fn exchange(w: &mut World) -> Result<Vec<Ob>, String> {
    let prog = w.prog("3d")?;
    Ok(pair_obs(&load(&prog), EXCHANGE))
}
pub fn stages(w: &mut World) -> Result<Vec<Ob>, String> {
    let prog = w.prog("3d")?;
    let o = load(&prog);
    let mut out = vec![];
    for (kind, used_by_startup, want) in [
        (
            "StartupStages",
            true,
            vec!["Initial", "ReadInput", "InsertDerivedComponents", "Decomposition", "SetOutgoingEntities", "Exchange", "AssignParticleIds", "TreeConstruction", "Remap", "InsertGrid", "InsertComponentsAfterGrid", "InitSweep", "Final"],
        ),
        ("Stages", false, vec!["Initial", "Sweep", "AfterSweep", "CreateOutputFiles", "Output", "Final"]),
    ] {
        let (list, func, file) = order(&prog, kind);
        let names: Vec<&String> = list.iter().map(|x| &x.0).collect();
        for n in &want {
            let k = names.iter().filter(|x| **x == n).count();
            let v = match k {
                1 => Verdict::Holds,
                _ if list.len() < 3 => Verdict::Unknown("anchor not found: list of stages".into()),
                0 if !o.facts.regs.iter().any(|r| r.stage.as_deref() == Some(&format!("{kind}::{n}"))) => Verdict::Unknown("no longer used".into()),
                0 => Verdict::Violated(format!("{kind}::{n} is used but not registered in {func}")),
                _ => Verdict::Violated(format!("{kind}::{n} is registered {k} times in {func}")),
            };
            out.push(ob(format!("{kind}::{n} registered once"), "every stage in use is registered exactly once", func.clone(), file.clone(), list.iter().find(|x| &x.0 == n).map(|x| x.1).unwrap_or(0), v, format!("{func}: {kind}::{n}")));
        }
        for p in want.windows(2) {
            let pos = |n: &str| names.iter().position(|x| *x == n);
            let v = match (pos(p[0]), pos(p[1])) {
                (Some(a), Some(b)) if a < b => Verdict::Holds,
                (Some(_), Some(_)) => Verdict::Violated(format!("{kind}::{} comes after {kind}::{} in {func}", p[0], p[1])),
                _ => Verdict::Unknown("anchor not found: stage".into()),
            };
            out.push(ob(format!("{kind}::{} before {kind}::{}", p[0], p[1]), "stages follow the data flow", func.clone(), file.clone(), 0, v, format!("{func}: {} -> {}", p[0], p[1])));
        }
        // stages used anywhere
        let mut used: BTreeMap<String, &Reg> = BTreeMap::new();
        for r in o.facts.regs.iter().filter(|r| r.startup == used_by_startup) {
            if let Some(s) = &r.stage {
                used.entry(s.clone()).or_insert(r);
            }
        }
        for (s, r) in used {
            let Some((k, n)) = s.split_once("::") else { continue };
            if k == kind && want.contains(&n) || k == "CoreStage" {
                continue;
            }
            let v = if k != kind {
                Verdict::Violated(format!("{} is added to {s}, which is not one of the {}stages", r.system, if used_by_startup { "startup " } else { "step " }))
            } else if list.iter().any(|x| x.0 == n) {
                Verdict::Holds
            } else {
                Verdict::Violated(format!("{} is added to {s}, which is not registered", r.system))
            };
            out.push(ob(format!("{s} in use is registered"), "every stage in use is registered exactly once", r.func.clone(), r.file.clone(), r.line, v, format!("{}: {}", r.func, s)));
        }
    }
    out.extend(pair_obs(&o, EXCHANGE));
    out.extend(pair_obs(&o, STARTUP));
    Ok(out)
}
const OUT: Option<&str> = Some("Stages::Output");
const CREATE: Option<&str> = Some("Stages::CreateOutputFiles");
const OUTPUT: &[(&str, &str, Option<&str>)] = &[
    ("init_wait_for_other_ranks_system", "open_file_system", OUT),
    ("open_file_system", "write_system", OUT),
    ("write_system", "close_file_system", OUT),
    ("open_file_system", "close_file_system", OUT),
    ("close_file_system", "finish_wait_for_other_ranks_system", OUT),
    ("close_file_system", "update_system", OUT),
    ("create_file_system", "create_system", CREATE),
    ("create_system", "close_file_system", CREATE),
    ("create_file_system", "open_file_system", None),
    ("initialize_system", "update_system", None),
    ("compute_output_rank_assignment_system", "open_file_system", None),
];
pub fn output(w: &mut World) -> Result<Vec<Ob>, String> {
    let prog = w.prog("3d")?;
    let o = load(&prog);
    let mut out = pair_obs(&o, OUTPUT);
    // all parts of the protocol run in the same steps
    for s in ["open_file_system", "close_file_system", "update_system", "init_wait_for_other_ranks_system", "finish_wait_for_other_ranks_system", "create_file_system"] {
        let regs: Vec<&Reg> = o.facts.regs.iter().filter(|r| r.system == s && !r.startup).collect();
        let v = if regs.is_empty() {
            Verdict::Unknown("anchor not found: not added directly".into())
        } else if let Some(r) = regs.iter().find(|r| !r.criteria.iter().any(|c| c == "run_criterion")) {
            Verdict::Violated(format!("{s} is added in {} without the run criterion of the output timer", r.func))
        } else {
            Verdict::Holds
        };
        let (file, line) = regs.first().map(|r| (r.file.clone(), r.line)).unwrap_or_default();
        out.push(ob(format!("{s} runs when output is due"), "all systems of the output protocol share one run criterion", s.into(), file, line, v, format!("{} registrations of {s}", regs.len())));
    }
    Ok(out)
}
