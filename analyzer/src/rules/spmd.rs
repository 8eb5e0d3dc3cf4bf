//! Collective operations are not under rank-dependent control: for every collective call
//! site the branch conditions, loop bounds and early exits it depends on are traced back
//! to their sources.
use crate::load::{FnInfo, Program};
use crate::report::World;
use crate::spec::{Ob, Verdict};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use syn::visit::Visit;

const PRIMITIVE: &[&str] = &["all_gather", "all_reduce", "all_to_all", "exchange_all", "exchange_same_for_all", "gather_into", "broadcast", "reduce_into", "scatter_into"];
fn primitive(n: &str) -> bool {
    n == "barrier" || PRIMITIVE.iter().any(|p| n.starts_with(p))
}
const COMMON: &[&str] = &["new", "from", "into", "iter", "iter_mut", "insert", "get", "push", "default", "clone", "next", "len", "run", "name", "add", "build", "update", "rank", "size", "drain", "take", "map", "collect", "into_iter", "remove", "extend", "count", "sum", "min", "max", "unwrap"];

pub struct Graph {
    pub prog: Rc<Program>,
    /// functions with a body outside of tests
    pub own: Vec<usize>,
}
impl Graph {
    pub fn new(prog: &Rc<Program>) -> Self {
        let own = prog.fns.iter().filter(|f| !f.in_test && f.block.is_some() && f.file.starts_with("src") && !f.module.iter().any(|m| m == "tests" || m == "test_utils")).map(|f| f.id).collect();
        Graph { prog: prog.clone(), own }
    }
    pub fn f(&self, id: usize) -> &FnInfo {
        &self.prog.fns[id]
    }
    fn named(&self, name: &str) -> Vec<usize> {
        self.own.iter().copied().filter(|i| self.f(*i).name == name).collect()
    }
    /// candidates of a method call
    pub fn method(&self, name: &str) -> Vec<usize> {
        if COMMON.contains(&name) {
            return vec![];
        }
        let v: Vec<usize> = self.named(name).into_iter().filter(|i| self.f(*i).has_self()).collect();
        if v.len() > 4 {
            return vec![];
        }
        v
    }
    /// candidates of a call by path
    pub fn path(&self, p: &syn::Path, caller: &FnInfo) -> Vec<usize> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let Some(name) = segs.last() else { return vec![] };
        let v = self.named(name);
        if segs.len() == 1 {
            let free: Vec<usize> = v.into_iter().filter(|i| self.f(*i).self_name.is_none()).collect();
            let here: Vec<usize> = free.iter().copied().filter(|i| self.f(*i).module == caller.module).collect();
            if !here.is_empty() {
                return here;
            }
            return if free.len() <= 2 { free } else { vec![] };
        }
        let q = &segs[segs.len() - 2];
        let q = if q == "Self" { caller.self_name.clone().unwrap_or_default().split('@').next().unwrap().to_string() } else { q.clone() };
        v.into_iter()
            .filter(|i| {
                let f = self.f(*i);
                f.self_name.as_deref().map(|s| s.split('@').next().unwrap() == q).unwrap_or(f.module.last() == Some(&q))
            })
            .collect()
    }
}
pub fn show<X: quote::ToTokens>(e: &X) -> String {
    let s = quote::quote!(#e).to_string().replace(" . ", ".").replace(" (", "(").replace("( ", "(").replace(" )", ")").replace(" :: ", "::").replace("& ", "&");
    if s.chars().count() > 120 {
        format!("{}…", s.chars().take(120).collect::<String>())
    } else {
        s
    }
}
#[derive(Clone)]
enum Guard {
    Cond(syn::Expr),
    /// the number of elements
    Iter(syn::Expr),
}
struct Site {
    what: String,
    line: usize,
    guards: Vec<Guard>,
}
struct Walk<'a> {
    g: &'a Graph,
    coll: &'a BTreeSet<usize>,
    me: &'a FnInfo,
    guards: Vec<Guard>,
    /// conditions under which the rest of the function is not reached
    exits: Vec<Guard>,
    closure: u32,
    sites: Vec<Site>,
}
/// conditions of break, continue and return inside a loop body
struct Exits {
    guards: Vec<Guard>,
    found: Vec<Guard>,
    depth: u32,
}
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::If(i) => {
                self.visit_expr(&i.cond);
                self.guards.push(Guard::Cond((*i.cond).clone()));
                self.visit_block(&i.then_branch);
                if let Some((_, x)) = &i.else_branch {
                    self.visit_expr(x);
                }
                self.guards.pop();
            }
            syn::Expr::Match(m) => {
                self.guards.push(Guard::Cond((*m.expr).clone()));
                for a in &m.arms {
                    self.visit_expr(&a.body);
                }
                self.guards.pop();
            }
            syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) => {
                self.depth += 1;
                syn::visit::visit_expr(self, e);
                self.depth -= 1;
            }
            syn::Expr::Closure(_) => {}
            syn::Expr::Break(_) | syn::Expr::Continue(_) if self.depth == 0 => self.found.extend(self.guards.iter().cloned()),
            syn::Expr::Return(_) => self.found.extend(self.guards.iter().cloned()),
            _ => syn::visit::visit_expr(self, e),
        }
    }
}
impl Walk<'_> {
    fn site(&mut self, what: &str, line: usize) {
        let guards = self.guards.iter().chain(&self.exits).cloned().collect();
        self.sites.push(Site { what: what.into(), line, guards });
    }
    fn body(&mut self, b: &syn::Block, extra: Vec<Guard>) {
        let mut x = Exits { guards: vec![], found: vec![], depth: 0 };
        x.visit_block(b);
        let n = self.guards.len();
        self.guards.extend(extra);
        self.guards.extend(x.found);
        self.visit_block(b);
        self.guards.truncate(n);
    }
}
impl<'ast> Visit<'ast> for Walk<'_> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::If(i) => {
                self.visit_expr(&i.cond);
                self.guards.push(Guard::Cond((*i.cond).clone()));
                self.visit_block(&i.then_branch);
                if let Some((_, x)) = &i.else_branch {
                    self.visit_expr(x);
                }
                self.guards.pop();
            }
            syn::Expr::Match(m) => {
                self.visit_expr(&m.expr);
                self.guards.push(Guard::Cond((*m.expr).clone()));
                for a in &m.arms {
                    self.visit_expr(&a.body);
                }
                self.guards.pop();
            }
            syn::Expr::While(w) => {
                let n = self.guards.len();
                self.guards.push(Guard::Cond((*w.cond).clone()));
                self.visit_expr(&w.cond);
                self.guards.truncate(n);
                self.body(&w.body, vec![Guard::Cond((*w.cond).clone())]);
            }
            syn::Expr::ForLoop(w) => {
                self.visit_expr(&w.expr);
                self.body(&w.body, vec![Guard::Iter((*w.expr).clone())]);
            }
            syn::Expr::Loop(w) => self.body(&w.body, vec![]),
            syn::Expr::Closure(c) => {
                self.closure += 1;
                self.visit_expr(&c.body);
                self.closure -= 1;
            }
            syn::Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    self.visit_expr(x);
                }
                if self.closure == 0 {
                    let g = self.guards.clone();
                    self.exits.extend(g);
                }
            }
            syn::Expr::MethodCall(m) => {
                syn::visit::visit_expr_method_call(self, m);
                let n = m.method.to_string();
                let line = m.method.span().start().line;
                if primitive(&n) || self.g.method(&n).iter().any(|i| self.coll.contains(i)) {
                    self.site(&n, line);
                }
            }
            syn::Expr::Call(c) => {
                syn::visit::visit_expr_call(self, c);
                if let syn::Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    let line = p.path.segments.last().map(|s| s.ident.span().start().line).unwrap_or(0);
                    if self.g.path(&p.path, self.me).iter().any(|i| self.coll.contains(i)) {
                        self.site(&n, line);
                    }
                }
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, x)) = &i.diverge {
                self.guards.push(Guard::Cond((*i.expr).clone()));
                self.visit_expr(x);
                self.guards.pop();
            }
        }
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
/// definitions of local variables
struct Defs {
    map: HashMap<String, Vec<syn::Expr>>,
}
fn names(p: &syn::Pat, out: &mut Vec<String>) {
    struct P<'a>(&'a mut Vec<String>);
    impl<'ast> Visit<'ast> for P<'_> {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            self.0.push(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    P(out).visit_pat(p);
}
impl Defs {
    fn bind(&mut self, p: &syn::Pat, e: &syn::Expr) {
        let mut v = vec![];
        names(p, &mut v);
        for n in v {
            self.map.entry(n).or_default().push(e.clone());
        }
    }
}
impl<'ast> Visit<'ast> for Defs {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init {
            self.bind(&l.pat, &i.expr);
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        self.bind(&l.pat, &l.expr);
        syn::visit::visit_expr_let(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.bind(&l.pat, &l.expr);
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        if let syn::Expr::Path(p) = &*a.left {
            if let Some(i) = p.path.get_ident() {
                self.map.entry(i.to_string()).or_default().push((*a.right).clone());
            }
        }
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, a: &'ast syn::ExprBinary) {
        if matches!(a.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_) | syn::BinOp::BitOrAssign(_) | syn::BinOp::BitAndAssign(_)) {
            if let syn::Expr::Path(p) = &*a.left {
                if let Some(i) = p.path.get_ident() {
                    self.map.entry(i.to_string()).or_default().push((*a.right).clone());
                }
            }
        }
        syn::visit::visit_expr_binary(self, a);
    }
}
struct Trace<'a> {
    g: &'a Graph,
    coll: &'a BTreeSet<usize>,
    me: &'a FnInfo,
    defs: Defs,
    params: BTreeMap<String, String>,
    busy: BTreeSet<String>,
}
const COUNTS: &[&str] = &["len", "is_empty", "count", "is_some", "is_none", "any", "all", "contains", "contains_key", "next", "first", "last", "get", "pop", "pop_front", "position", "find", "iter", "iter_mut", "into_iter", "drain", "values", "keys"];
impl Trace<'_> {
    fn is_collective(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                primitive(&n) || self.g.method(&n).iter().any(|i| self.coll.contains(i))
            }
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => self.g.path(&p.path, self.me).iter().any(|i| self.coll.contains(i)),
                _ => false,
            },
            _ => false,
        }
    }
    fn global_name(n: &str) -> bool {
        ["size", "all_", "global", "total", "param", "num_ranks", "ranks", "config", "settings", "time", "num_levels", "max_num"].iter().any(|k| n.contains(k))
    }
    /// why a value can differ between ranks
    fn local(&mut self, e: &syn::Expr) -> Option<String> {
        if self.is_collective(e) {
            return None;
        }
        match e {
            syn::Expr::Paren(x) => self.local(&x.expr),
            syn::Expr::Group(x) => self.local(&x.expr),
            syn::Expr::Unary(x) => self.local(&x.expr),
            syn::Expr::Reference(x) => self.local(&x.expr),
            syn::Expr::Cast(x) => self.local(&x.expr),
            syn::Expr::Try(x) => self.local(&x.expr),
            syn::Expr::Let(x) => self.local(&x.expr).or_else(|| self.amount(&x.expr)),
            syn::Expr::Binary(x) => self.local(&x.left).or_else(|| self.local(&x.right)),
            syn::Expr::Range(x) => x.start.as_ref().and_then(|y| self.local(y)).or_else(|| x.end.as_ref().and_then(|y| self.local(y))),
            syn::Expr::If(x) => {
                let mut r = self.local(&x.cond);
                if r.is_none() {
                    if let Some(syn::Stmt::Expr(y, None)) = x.then_branch.stmts.last() {
                        r = self.local(y);
                    }
                }
                r
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if m.args.is_empty() && (n == "rank" || n == "is_main" || n == "is_main_rank") {
                    return Some(format!("{} is this rank's number", show(e)));
                }
                if n == "load" && show(&m.receiver).ends_with("RANK") {
                    return Some(format!("{} is this rank's number", show(e)));
                }
                if n == "size" || Self::global_name(&n) {
                    return None;
                }
                if COUNTS.contains(&n.as_str()) {
                    if let Some(r) = self.amount(&m.receiver) {
                        return Some(r);
                    }
                }
                self.local(&m.receiver).or_else(|| m.args.iter().filter(|a| !matches!(a, syn::Expr::Closure(_))).find_map(|a| self.local(a)))
            }
            syn::Expr::Call(c) => c.args.iter().find_map(|a| self.local(a)),
            syn::Expr::Macro(_) => None,
            syn::Expr::Field(f) => match &f.member {
                syn::Member::Named(n) if Self::global_name(&n.to_string()) => None,
                syn::Member::Named(n) if n == "rank" || n == "world_rank" => Some(format!("{} is this rank's number", show(e))),
                _ => self.local(&f.base),
            },
            syn::Expr::Path(p) => {
                let i = p.path.get_ident()?.to_string();
                if Self::global_name(&i) {
                    return None;
                }
                if let Some(t) = self.params.get(&i) {
                    if t.contains("WorldRank") || t == "Rank" && i.contains("rank") || i == "rank" || i == "world_rank" || i == "is_main" {
                        return Some(format!("{i} is this rank's number"));
                    }
                    return None;
                }
                self.through(&i, |s, d| s.local(d))
            }
            _ => None,
        }
    }
    fn through(&mut self, i: &str, f: impl Fn(&mut Self, &syn::Expr) -> Option<String>) -> Option<String> {
        if !self.busy.insert(i.to_string()) {
            return None;
        }
        let defs = self.defs.map.get(i).cloned().unwrap_or_default();
        let r = defs.iter().find_map(|d| f(self, d));
        self.busy.remove(i);
        r
    }
    /// why the number of elements (or the presence) of a value can differ between ranks
    fn amount(&mut self, e: &syn::Expr) -> Option<String> {
        if self.is_collective(e) {
            return None;
        }
        match e {
            syn::Expr::Paren(x) => self.amount(&x.expr),
            syn::Expr::Group(x) => self.amount(&x.expr),
            syn::Expr::Unary(x) => self.amount(&x.expr),
            syn::Expr::Reference(x) => self.amount(&x.expr),
            syn::Expr::Try(x) => self.amount(&x.expr),
            syn::Expr::Range(_) => self.local(e),
            syn::Expr::Index(x) => self.amount(&x.expr),
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n.contains("ranks") || Self::global_name(&n) {
                    return None;
                }
                if show(&m.receiver) == "self" {
                    let c = self.g.method(&n);
                    let many = |t: &syn::ReturnType| {
                        let t = show(t);
                        ["Vec <", "DataByRank <", "HashMap <", "HashSet <", "impl Iterator"].iter().any(|k| t.contains(k))
                    };
                    return (!c.is_empty() && c.iter().all(|i| many(&self.g.f(*i).sig.output))).then(|| format!("{} is data of this rank", show(e)));
                }
                self.amount(&m.receiver)
            }
            syn::Expr::Field(f) => {
                if let syn::Member::Named(n) = &f.member {
                    if Self::global_name(&n.to_string()) {
                        return None;
                    }
                }
                let base = show(&f.base);
                if base == "self" {
                    let n = show(&f.member);
                    if ["comm", "param", "box", "directions", "levels", "search"].iter().any(|k| n.contains(k)) {
                        return None;
                    }
                    return Some(format!("{} is data of this rank", show(e)));
                }
                self.amount(&f.base)
            }
            syn::Expr::Path(p) => {
                let i = p.path.get_ident()?.to_string();
                if i == "self" || Self::global_name(&i) {
                    return None;
                }
                if let Some(t) = self.params.get(&i) {
                    let local = ["Query<", "Particles<", "Vec<", "[", "HashMap<", "DataByRank<", "LocalParticles", "HaloParticles"].iter().any(|k| t.contains(k));
                    if local && !t.contains("Parameters") && !t.contains("Res<") {
                        return Some(format!("{i} is data of this rank"));
                    }
                    return None;
                }
                self.through(&i, |s, d| s.amount(d))
            }
            _ => None,
        }
    }
}
pub fn collectives(g: &Graph) -> BTreeSet<usize> {
    let mut coll: BTreeSet<usize> = BTreeSet::new();
    // the communication primitives themselves
    for i in &g.own {
        if primitive(&g.f(*i).name) {
            coll.insert(*i);
        }
    }
    loop {
        let before = coll.len();
        for i in &g.own {
            if coll.contains(i) {
                continue;
            }
            let f = g.f(*i);
            let mut w = Walk { g, coll: &coll, me: f, guards: vec![], exits: vec![], closure: 0, sites: vec![] };
            w.visit_block(f.block.as_ref().unwrap());
            if !w.sites.is_empty() {
                coll.insert(*i);
            }
        }
        if coll.len() == before {
            return coll;
        }
    }
}
/// ranks take turns: the numbers of barriers before and after add up to the number of ranks
const TURNS: &[&str] = &["init_wait_for_other_ranks_system", "finish_wait_for_other_ranks_system", "start_barrier", "end_barrier"];
pub fn run(w: &mut World) -> Result<Vec<Ob>, String> {
    let prog = w.prog("3d")?;
    let g = Graph::new(&prog);
    let coll = collectives(&g);
    let mut obs = vec![];
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    for i in coll.iter() {
        let f = g.f(*i);
        // the layer below: point-to-point messages and MPI itself
        if f.file.starts_with("src/communication/mpi_world") || TURNS.contains(&f.name.as_str()) {
            continue;
        }
        let mut w = Walk { g: &g, coll: &coll, me: f, guards: vec![], exits: vec![], closure: 0, sites: vec![] };
        w.visit_block(f.block.as_ref().unwrap());
        let mut defs = Defs { map: HashMap::new() };
        defs.visit_block(f.block.as_ref().unwrap());
        let mut params = BTreeMap::new();
        for a in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                let mut v = vec![];
                names(&t.pat, &mut v);
                for n in v {
                    params.insert(n, show(&t.ty).replace(' ', ""));
                }
            }
        }
        let mut t = Trace { g: &g, coll: &coll, me: f, defs, params, busy: BTreeSet::new() };
        for s in w.sites {
            let mut why = None;
            for gd in &s.guards {
                let (e, r) = match gd {
                    Guard::Cond(e) => (e, t.local(e)),
                    Guard::Iter(e) => (e, t.local(e).or_else(|| t.amount(e))),
                };
                if let Some(r) = r {
                    why = Some(format!("{} is reached depending on `{}`, and {}", s.what, show(e), r));
                    break;
                }
            }
            let k = seen.entry(format!("{}: {}", f.qual(), s.what)).or_insert(0);
            *k += 1;
            let key = format!("{}: {}{}", f.qual(), s.what, if *k > 1 { format!(" ({k})") } else { String::new() });
            obs.push(Ob {
                key: key.clone(),
                rule: "no branch, loop bound or early exit a collective depends on is computed from rank-local data".into(),
                target: f.qual(),
                file: f.file.clone(),
                line: s.line,
                verdict: match why {
                    Some(m) => Verdict::Violated(m),
                    None => Verdict::Holds,
                },
                analysed: vec![format!("{}: {} under {} conditions", f.qual(), s.what, s.guards.len())],
                detail: s.guards.iter().map(|g| match g { Guard::Cond(e) | Guard::Iter(e) => show(e) }).collect::<Vec<_>>().join("; "),
            });
        }
    }
    Ok(obs)
}
