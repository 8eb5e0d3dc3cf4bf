//! Obligations: a function of the repository against its specification.
use crate::eval::*;
use crate::load::{FnInfo, Program};
use crate::place::mutable_type;
use crate::term::{Item, Node, T};
use crate::val::*;
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Holds,
    Violated(String),
    Unknown(String),
}
#[derive(Clone, Debug)]
pub struct Ob {
    pub key: String,
    pub rule: String,
    pub target: String,
    pub file: String,
    pub line: usize,
    pub verdict: Verdict,
    pub analysed: Vec<String>,
    pub detail: String,
}

#[derive(Clone, Default, Debug)]
pub struct SpecOpts {
    pub opaque: Vec<String>,
    /// accessors returning a mutable reference: writes through it are effects
    pub handles: Vec<String>,
    pub effects: Vec<String>,
    pub feature: Option<String>,
    pub name: Option<String>,
    pub trait_: Option<String>,
    pub no_panic: bool,
    pub unordered: bool,
    pub keep_abs: bool,
    pub unroll: usize,
    pub skip: Vec<String>,
    pub target: Option<String>,
    pub law: bool,
    pub known: Vec<String>,
    /// `group:name` of the alternative decompositions this obligation belongs to
    pub scenario: Vec<String>,
}
pub fn spec_opts(attrs: &[syn::Attribute]) -> Option<SpecOpts> {
    for a in attrs {
        if !a.path().is_ident("spec") && !a.path().is_ident("law") {
            continue;
        }
        let mut o = SpecOpts { law: a.path().is_ident("law"), ..Default::default() };
        if let syn::Meta::List(l) = &a.meta {
            let toks: Vec<proc_macro2::TokenTree> = l.tokens.clone().into_iter().collect();
            let mut i = 0;
            while i < toks.len() {
                if let proc_macro2::TokenTree::Ident(id) = &toks[i] {
                    let key = id.to_string();
                    let mut vals = vec![];
                    if let Some(proc_macro2::TokenTree::Group(g)) = toks.get(i + 1) {
                        for part in g.stream().to_string().split(',') {
                            let p = part.replace(' ', "").trim_matches('"').to_string();
                            if !p.is_empty() {
                                vals.push(p);
                            }
                        }
                        i += 1;
                    }
                    match key.as_str() {
                        "opaque" => o.opaque.extend(vals),
                        "handles" => o.handles.extend(vals),
                        "effects" => o.effects.extend(vals),
                        "feature" => o.feature = vals.first().cloned(),
                        "of_trait" => o.trait_ = vals.first().cloned(),
                        "target" => o.target = vals.first().cloned(),
                        "known" => o.known.extend(vals),
                        "scenario" => o.scenario.extend(vals.iter().map(|v| v.trim_matches('"').to_string())),
                        "no_panic" => o.no_panic = true,
                        "unroll" => o.unroll = vals[0].parse().unwrap(),
                        "keep_abs" => o.keep_abs = true,
                        "unordered" => o.unordered = true,
                        "skip" => o.skip.extend(vals),
                        k => panic!("unknown spec option {k}"),
                    }
                }
                i += 1;
            }
        }
        return Some(o);
    }
    None
}

pub struct Outcome {
    pub ret: T,
    pub muts: Vec<(String, T)>,
    pub world: T,
    pub panics: T,
    pub dead: bool,
}

impl Ev {
    /// value graph of a whole function on symbolic arguments
    pub fn run(&mut self, fid: usize) -> Outcome {
        let prog = self.prog.clone();
        let f = &prog.fns[fid];
        let mut st = self.new_state();
        let ctx = self.fn_ctx(f, None);
        let mut args = vec![];
        let mut muts = vec![];
        let mut k = 0;
        for inp in &f.sig.inputs {
            match inp {
                syn::FnArg::Receiver(r) => {
                    let s = self.tm.sym("self");
                    let v = Val::T(s, ctx.self_ty.clone());
                    let r_mut = r.reference.is_some() && r.mutability.is_some();
                    if r_mut {
                        let root = self.alloc(&mut st, v);
                        muts.push(("self".to_string(), root));
                        args.push(Val::Ref(Place::root(root), ctx.self_ty.clone()));
                    } else {
                        args.push(v);
                    }
                }
                syn::FnArg::Typed(t) => {
                    let name = format!("arg{k}");
                    k += 1;
                    let ty = self.ty(&t.ty, &ctx);
                    let s = self.tm.sym(&name);
                    let v = self.arg_val(s, &ty);
                    if mutable_type(&t.ty) {
                        let root = self.alloc(&mut st, v);
                        muts.push((name, root));
                        args.push(Val::Ref(Place::root(root), ty));
                    } else {
                        args.push(v);
                    }
                }
            }
        }
        let v = self.call(&mut st, fid, args, None);
        let ret = if st.dead { self.tm.path("never") } else { self.to_t(&mut st, &v) };
        let muts = muts
            .into_iter()
            .map(|(n, r)| {
                let v = self.read_root(&mut st, r);
                let t = self.to_t(&mut st, &v);
                (n, t)
            })
            .collect();
        Outcome { ret, muts, world: st.world, panics: st.panics, dead: st.dead }
    }
    fn arg_val(&mut self, s: T, ty: &Ty) -> Val {
        match ty {
            Ty::Tuple(v) => Val::Tup(
                v.iter()
                    .enumerate()
                    .map(|(i, t)| {
                        let f = self.tm.field(s, &i.to_string());
                        self.arg_val(f, t)
                    })
                    .collect(),
            ),
            Ty::Named(n, a) if n == "Iter" => Val::It(Box::new(It::Elems(s, a.first().cloned().unwrap_or(Ty::Unk)))),
            Ty::Arr(..) => {
                let mut t = ty;
                let mut d = 0;
                while let Ty::Arr(e, n) = t {
                    if let Some(n) = n {
                        self.tm.lens.insert((s, d), *n);
                    }
                    d += 1;
                    t = e;
                }
                let v = self.expand_array(s, ty);
                Val::T(v, ty.clone())
            }
            _ => {
                if *ty == Ty::Int {
                    self.tm.mark_int(s);
                }
                Val::T(s, ty.clone())
            }
        }
    }
}

impl Ev {
    /// an array of known small length as the list of its elements
    fn expand_array(&mut self, s: T, ty: &Ty) -> T {
        if let Ty::Arr(e, Some(n)) = ty {
            if let Some(k) = self.tm.as_num(*n) {
                let k = num_traits::ToPrimitive::to_i64(&k).unwrap_or(99);
                if k <= 8 {
                    let e = (**e).clone();
                    let v = (0..k)
                        .map(|i| {
                            let i = self.tm.int(i);
                            let x = self.tm.index(s, i);
                            self.expand_array(x, &e)
                        })
                        .collect();
                    return self.tm.array(v);
                }
            }
        }
        s
    }
}

pub enum Diff {
    Same,
    Definite(String),
    Maybe(String),
}
impl Diff {
    fn and(self, f: impl FnOnce() -> Diff) -> Diff {
        match self {
            Diff::Definite(s) => Diff::Definite(s),
            Diff::Same => f(),
            Diff::Maybe(s) => match f() {
                Diff::Definite(t) => Diff::Definite(t),
                _ => Diff::Maybe(s),
            },
        }
    }
}
/// replaces quantities by what the assumptions of a specification equate them with
fn settle(ev: &mut Ev, mut r: Outcome) -> Outcome {
    let mut work = ev.assumed.clone();
    while let Some(a) = work.pop() {
        let q = match ev.tm.n(a).clone() {
            Node::Ite(p, x, y) if y == ev.tm.ff => {
                work.extend([p, x]);
                continue;
            }
            Node::Eq0(q) => q,
            _ => continue,
        };
        if let Some((x, val)) = ev.tm.solve_linear(q) {
            r.ret = ev.tm.subst1(r.ret, x, val);
            r.world = ev.tm.subst1(r.world, x, val);
            r.panics = ev.tm.subst1(r.panics, x, val);
            for m in r.muts.iter_mut() {
                m.1 = ev.tm.subst1(m.1, x, val);
            }
        }
    }
    r
}

/// names of uninterpreted functions occurring in a term
pub fn vocab(ev: &Ev, t: T, out: &mut BTreeSet<String>) {
    ev.tm.walk(t, &mut |_, n| {
        if let Node::App(f, _) = n {
            if f.contains(':') {
                out.insert(f.clone());
            }
        }
        if let Node::Path(p) = n {
            out.insert(format!("path {p}"));
        }
    });
}
/// parts of a term on which normal forms are not canonical
/// drop conversions to narrower integers
fn wide(ev: &mut Ev, t: T, all: bool) -> T {
    fn go(tm: &mut crate::term::Terms, t: T, all: bool, memo: &mut std::collections::HashMap<T, T>) -> T {
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let r = match tm.n(t).clone() {
            Node::App(f, x) if matches!(f.as_str(), "narrow_u32" | "narrow_i32") || all && f.starts_with("narrow_") => go(tm, x[0], all, memo),
            _ => tm.map_children(t, 0, &mut |s, x, _| go(s, x, all, memo)),
        };
        memo.insert(t, r);
        r
    }
    go(&mut ev.tm, t, all, &mut std::collections::HashMap::new())
}
fn murky(ev: &Ev, t: T, common: &HashSet<T>) -> Option<String> {
    let mut r = None;
    ev.tm.walk(t, &mut |x, n| {
        if common.contains(&x) {
            return;
        }
        let m = match n {
            Node::Opaque(s) => Some(format!("unmodelled: {s}")),
            Node::Path(s) if s.starts_with("const ") => Some(format!("table {s}")),
            Node::Fold(..) | Node::Loop(..) => Some("loop without closed form".into()),
            Node::Index(x, _) if matches!(ev.tm.n(*x), Node::Seq(..)) => Some("element of a built sequence".into()),
            Node::Sum(..) | Node::Any(..) => None,
            Node::App(f, _) if matches!(f.as_str(), "blob" | "first" | "nth" | "skip" | "take" | "step_by" | "whole" | "chunk" | "resize" | "entries" | "keys" | "values" | "remove_at" | "slice" | "extreme" | "apply" | "scatter" | "first_err" | "trailing_zeros" | "leading_zeros" | "count_ones" | "ilog2") || f.starts_with("it") || f.starts_with("m:sort") => {
                Some(format!("{f}"))
            }
            _ => None,
        };
        if r.is_none() {
            r = m;
        }
    });
    r
}

pub struct Differ<'a> {
    pub ev: &'a mut Ev,
    /// vocabulary of the specification
    pub known: BTreeSet<String>,
    /// vocabulary of the implementation
    pub theirs: Option<BTreeSet<String>>,
    pub budget: u32,
    /// the repository has all the functions the specification treats as effects
    pub effects_exist: bool,
    pub path_budget: u32,
    /// holds wherever values are compared: neither side panics
    pub ground: Vec<(T, bool)>,
    settled: bool,
    /// conditions under which the values are compared
    pub path: Vec<(T, bool)>,
    /// subterms that both sides share: the same value, whatever it is
    pub common: HashSet<T>,
}
impl<'a> Differ<'a> {
    /// compare under an additional condition; values on an impossible path are not compared
    fn under(&mut self, c: T, pos: bool, a: T, b: T, ctx: &str) -> Diff {
        if a == b {
            return Diff::Same;
        }
        self.path.push((c, pos));
        let r = if self.possible(&self.path) {
            self.diff(a, b, ctx)
        } else {
            if std::env::var_os("VG_PATH").is_some() {
                eprintln!("impossible: {}", self.path.iter().map(|(t, v)| format!("\n    {v} {}", self.ev.tm.show(*t))).collect::<String>());
            }
            Diff::Same
        };
        self.path.pop();
        r
    }
    /// `a` and `b` below binders
    fn inside(&mut self, a: T, b: T, ctx: &str) -> Diff {
        let saved = std::mem::take(&mut self.path);
        let r = self.diff(a, b, ctx);
        self.path = saved;
        r
    }
    fn shift_path(&mut self, by: u32) {
        let p = std::mem::take(&mut self.path);
        self.path = p.into_iter().map(|(t, v)| (self.ev.tm.shift(t, by), v)).collect();
    }
    fn theirs_and_spec(&self, x: &str) -> bool {
        self.known.contains(x)
    }
    fn possible(&self, l: &[(T, bool)]) -> bool {
        if !crate::lin::possible(&self.ev.tm, l) {
            return false;
        }
        if self.ground.is_empty() {
            return true;
        }
        let mut v = self.ground.clone();
        v.extend_from_slice(l);
        crate::lin::possible(&self.ev.tm, &v)
    }
    fn definite(&mut self, a: T, b: T, ctx: &str) -> Diff {
        if !self.possible(&self.path) {
            return Diff::Same;
        }
        // two numbers that the path forces to be equal
        if !self.ev.tm.is_bool(a) {
            let e = self.ev.tm.eq(a, b);
            if e == self.ev.tm.tt {
                return Diff::Same;
            }
            if matches!(self.ev.tm.n(e), Node::Eq0(_)) {
                let mut l = self.path.clone();
                l.push((e, false));
                if !self.possible(&l) {
                    return Diff::Same;
                }
            }
        }
        // the same formula, but reading elements that the loop has already overwritten
        if let (Node::Fold(n, init, next, e, 0), Node::App(f, x)) = (self.ev.tm.n(a).clone(), self.ev.tm.n(b).clone()) {
            if f == "scatter" && init.len() == 1 && init[0] == x[0] && n == x[1] && e == self.ev.tm.ff {
                let (i, st) = (self.ev.tm.fresh("i"), self.ev.tm.fresh("st"));
                let nx = self.ev.tm.open_n(next[0], &[i, st]);
                if let (Node::Store(base, key, v), Node::Lam(1, kb), Node::Lam(2, vb)) = (self.ev.tm.n(nx).clone(), self.ev.tm.n(x[2]).clone(), self.ev.tm.n(x[3]).clone()) {
                    let k2 = self.ev.tm.open1(kb, i);
                    let old = self.ev.tm.index(x[0], k2);
                    let v2 = self.ev.tm.open_n(vb, &[i, old]);
                    let v1 = self.ev.tm.subst1(v, st, x[0]);
                    if base == st && key == k2 && v1 == v2 && self.ev.tm.occurs(v, st) {
                        return Diff::Definite(format!("{ctx}: reads elements the same loop overwrites: {}", clip(&self.ev.tm.show(a))));
                    }
                }
            }
        }
        // equalities that hold on the path
        if !self.settled {
            let (mut x, mut y) = (a, b);
            for (c, v) in self.path.clone() {
                if let (Node::Eq0(q), true) = (self.ev.tm.n(c).clone(), v) {
                    if let Some((from, to)) = self.ev.tm.solve_linear(q) {
                        (x, y) = (self.ev.tm.subst1(x, from, to), self.ev.tm.subst1(y, from, to));
                    }
                }
            }
            if (x, y) != (a, b) {
                self.settled = true;
                let r = self.diff(x, y, ctx);
                self.settled = false;
                return r;
            }
        }
        let msg = format!("{ctx}: computes {} where the specification has {}", clip(&self.ev.tm.show(a)), clip(&self.ev.tm.show(b)));
        // what the specification updates is left as it was
        let untouched = match self.ev.tm.n(b) {
            Node::App(f, x) if f == "scatter" => x[0] == a,
            Node::Fold(_, init, next, _, k) => {
                init[*k as usize] == a && {
                    let n = self.ev.tm.n(next[*k as usize]);
                    !matches!(n, Node::BV(_))
                }
            }
            _ => false,
        };
        let (mut s, mut n) = (HashSet::new(), HashSet::new());
        for (t, _) in self.path.iter().chain(&[(a, true), (b, true)]) {
            self.ev.tm.walk(*t, &mut |_, x| match x {
                Node::Sum(c, _) => {
                    s.insert(*c);
                }
                Node::Any(c, _) => {
                    n.insert(*c);
                }
                _ => {}
            });
        }
        if s.intersection(&n).next().is_some() {
            return Diff::Maybe(format!("a sum against a disjunction; {msg}"));
        }
        for t in [a, b] {
            if t == b && untouched {
                continue;
            }
            if let Some(m) = murky(self.ev, t, &self.common) {
                if m.starts_with("itm") && self.opposite_extremes(a, b) {
                    continue;
                }
                return Diff::Maybe(format!("{m}; {msg}"));
            }
        }
        let mut v = BTreeSet::new();
        vocab(self.ev, a, &mut v);
        for (t, _) in self.path.clone() {
            vocab(self.ev, t, &mut v);
            if let Some(m) = murky(self.ev, t, &self.common) {
                return Diff::Maybe(format!("condition with {m}; {msg}"));
            }
        }
        for x in &v {
            // quantities unrelated to everything else
            if matches!(x.as_str(), "fn:mem::size_of" | "fn:size_of" | "fn:std::mem::size_of" | "m:capacity") {
                continue;
            }
            if !self.known.contains(x) && !self.theirs_and_spec(x) && !x.starts_with("path ") {
                return Diff::Maybe(format!("unknown function {x}; {msg}"));
            }
        }
        // one way of rounding expressed by another
        let rounding = |ev: &Ev, t: T| -> (BTreeSet<String>, bool) {
            let mut s = BTreeSet::new();
            let mut nested = false;
            ev.tm.walk(t, &mut |_, n| {
                if let Node::App(f, x) = n {
                    if matches!(f.as_str(), "floor" | "ceil" | "trunc" | "round" | "fract" | "rem" | "rem_euclid" | "idiv" | "div_euclid") {
                        s.insert(f.clone());
                        for y in x {
                            ev.tm.walk(*y, &mut |_, m| nested |= matches!(m, Node::App(g, _) if g == f));
                        }
                    }
                }
            });
            (s, nested)
        };
        let ((ra, na), (rb, nb)) = (rounding(self.ev, a), rounding(self.ev, b));
        if !ra.is_empty() && !rb.is_empty() {
            let roundings = |s: &BTreeSet<String>| s.iter().any(|x| matches!(x.as_str(), "floor" | "ceil" | "trunc" | "round" | "fract"));
            if na != nb || roundings(&ra) != roundings(&rb) {
                return Diff::Maybe(format!("different ways of rounding; {msg}"));
            }
        }
        let constant = matches!(self.ev.tm.n(a), Node::Bool(_)) || self.ev.tm.as_num(a).is_some() || matches!(self.ev.tm.n(a), Node::Struct(_, f) if f.is_empty());
        let no_effect = self.effects_exist && ctx.starts_with("effects") && matches!(self.ev.tm.n(a), Node::Sym(s) if s == "world");
        let eff = |s: &Self, t: T| match s.ev.tm.n(t) {
            Node::App(f, _) if f.starts_with("eff:") && s.known.contains(&f.replacen("eff:", "e:", 1)) || matches!(s.ev.tm.n(t), Node::App(f, _) if f.starts_with("eff:") && s.known.contains(f)) => Some(f.clone()),
            _ => None,
        };
        let other_effect = self.effects_exist && matches!((eff(self, a), eff(self, b)), (Some(f), Some(g)) if f != g);
        // the specification applies one of the program's functions to what is computed
        let dropped = match self.ev.tm.n(b) {
            Node::App(f, x) if f.starts_with("m:") || f.starts_with("fn:") => {
                let last = f[f.find(':').unwrap() + 1..].rsplit("::").next().unwrap_or("").to_string();
                x.contains(&a) && self.ev.prog.fns.iter().any(|g| g.name == last && g.file.starts_with("src"))
            }
            _ => false,
        };
        if let (Some(th), false) = (&self.theirs, constant || no_effect || other_effect || untouched || dropped) {
            let mut v = BTreeSet::new();
            vocab(self.ev, b, &mut v);
            for x in &v {
                if !th.contains(x) && !x.starts_with("path ") {
                    return Diff::Maybe(format!("function {x} of the specification does not occur; {msg}"));
                }
            }
        }
        if std::env::var_os("VG_PATH").is_some() {
            for (t, v) in &self.path {
                eprintln!("  path {v} {}", self.ev.tm.show(*t));
            }
        }
        Diff::Definite(msg)
    }
    /// a sequence with the items that the path to it decides
    fn on_path(&mut self, t: T) -> T {
        let Node::Seq(base, items) = self.ev.tm.n(t).clone() else { return t };
        let mut out = vec![];
        let mut changed = false;
        for it in items {
            let g = match &it {
                Item::One(g, _) | Item::Splice(g, _) if *g != self.ev.tm.tt => *g,
                Item::Gen(..) | Item::Loop(..) => {
                    let n = match &it {
                        Item::Gen(c, ..) => c[0],
                        Item::Loop(c, _) => *c,
                        _ => unreachable!(),
                    };
                    let z = self.ev.tm.zero;
                    let some = self.ev.tm.lt(z, n);
                    let mut with = self.path.clone();
                    with.push((some, true));
                    if some != self.ev.tm.tt && !self.possible(&with) {
                        changed = true;
                    } else {
                        out.push(it);
                    }
                    continue;
                }
                _ => {
                    out.push(it);
                    continue;
                }
            };
            let n = self.ev.tm.not(g);
            if self.refuted(g, &mut self.path.clone(), &mut 60) {
                changed = true;
            } else if self.refuted(n, &mut self.path.clone(), &mut 60) {
                changed = true;
                let tt = self.ev.tm.tt;
                out.push(match it {
                    Item::One(_, v) => Item::One(tt, v),
                    Item::Splice(_, v) => Item::Splice(tt, v),
                    x => x,
                });
            } else {
                out.push(it);
            }
        }
        if !changed {
            return t;
        }
        self.ev.tm.seq_on(base, out)
    }
    pub fn diff(&mut self, a: T, b: T, ctx: &str) -> Diff {
        if a == b {
            return Diff::Same;
        }
        if self.budget == 0 {
            return Diff::Maybe(format!("{ctx}: comparison budget exhausted"));
        }
        self.budget -= 1;
        if !self.path.is_empty() {
            let (a2, b2) = (self.on_path(a), self.on_path(b));
            if (a2, b2) != (a, b) {
                return self.diff(a2, b2, ctx);
            }
        }
        let (na, nb) = (self.ev.tm.n(a).clone(), self.ev.tm.n(b).clone());
        if let (Node::Seq(..) | Node::Array(_), Node::Seq(..) | Node::Array(_)) = (&na, &nb) {
            if let Some(m) = self.other_length(a, b) {
                if self.possible(&self.path) && !self.path.clone().iter().any(|(t, _)| murky(self.ev, *t, &self.common).is_some()) {
                    return Diff::Definite(format!("{ctx}: {m}: computes {} where the specification has {}", clip(&self.ev.tm.show(a)), clip(&self.ev.tm.show(b))));
                }
            }
        }
        match (&na, &nb) {
            (Node::Opaque(s), _) | (_, Node::Opaque(s)) => Diff::Maybe(format!("{ctx}: unmodelled: {s}")),
            // dereferencing a wrapper whose type is not known is the identity here
            (Node::Field(p, f), _) if f == "0" && *p == b => Diff::Maybe(format!("{ctx}: may be the same wrapper")),
            (_, Node::Field(p, f)) if f == "0" && *p == a => Diff::Maybe(format!("{ctx}: may be the same wrapper")),
            (Node::Struct(n, f), Node::Struct(m, g)) if n == m && f.len() == g.len() && f.iter().zip(g).all(|(x, y)| x.0 == y.0) => {
                let mut r = Diff::Same;
                for (x, y) in f.iter().zip(g) {
                    let c = format!("{ctx}.{}", x.0);
                    let (p, q) = (x.1, y.1);
                    r = r.and(|| self.diff(p, q, &c));
                }
                r
            }
            (Node::With(p, f), Node::With(q, g)) if f.len() == g.len() && f.iter().zip(g).all(|(x, y)| x.0 == y.0) => {
                let mut r = self.diff(*p, *q, ctx);
                for (x, y) in f.iter().zip(g) {
                    let c = format!("{ctx}.{}", x.0);
                    let (p, q) = (x.1, y.1);
                    r = r.and(|| self.diff(p, q, &c));
                }
                r
            }
            (Node::With(..), Node::Struct(n, g)) | (Node::Struct(n, g), Node::With(..)) if !self.ev.tm.is_variant(n) && !g.is_empty() => {
                let names: Vec<String> = g.iter().map(|x| x.0.clone()).collect();
                let mut r = Diff::Same;
                for n in names {
                    let x = self.ev.tm.field(a, &n);
                    let y = self.ev.tm.field(b, &n);
                    let c = format!("{ctx}.{n}");
                    r = r.and(|| self.diff(x, y, &c));
                }
                r
            }
            (Node::With(p, f), o) | (o, Node::With(p, f)) if !matches!(o, Node::Ite(..)) => {
                // one side updates fields the other leaves alone
                let _ = p;
                let mut names: Vec<String> = f.iter().map(|x| x.0.clone()).collect();
                if let Node::With(_, g) = &nb {
                    names.extend(g.iter().map(|x| x.0.clone()));
                }
                names.sort();
                names.dedup();
                let base = |s: &Self, t: T| match s.ev.tm.n(t) {
                    Node::With(b, _) => *b,
                    _ => t,
                };
                let mut r = Diff::Same;
                if base(self, a) != base(self, b) {
                    r = Diff::Maybe(format!("{ctx}: different base"));
                }
                for n in names {
                    let x = self.ev.tm.field(a, &n);
                    let y = self.ev.tm.field(b, &n);
                    let c = format!("{ctx}.{n}");
                    r = r.and(|| self.diff(x, y, &c));
                }
                r
            }
            (Node::Array(x), Node::Array(y)) if x.len() == y.len() => {
                let mut r = Diff::Same;
                for (k, (p, q)) in x.iter().zip(y).enumerate() {
                    let c = format!("{ctx}[{k}]");
                    let (p, q) = (*p, *q);
                    r = r.and(|| self.diff(p, q, &c));
                }
                r
            }
            (Node::Array(x), Node::Array(y)) => Diff::Definite(format!("{ctx}: {} elements instead of {}", x.len(), y.len())),
            _ if self.ev.tm.is_bool(a) && self.ev.tm.is_bool(b) => {
                // exclusive or, path by path
                self.bool_diff(a, b, ctx)
            }
            (Node::Ite(c, x, y), _) => {
                let (c, x, y) = (*c, *x, *y);
                let nc = self.ev.tm.not(c);
                let b1 = self.ev.restrict(b, c);
                let b2 = self.ev.restrict(b, nc);
                let s1 = format!("{ctx} when {}", clip2(&self.ev.tm.show(c)));
                let s2 = format!("{ctx} unless {}", clip2(&self.ev.tm.show(c)));
                if b1 == b && b2 == b && matches!(nb, Node::Ite(..)) {
                    if let Node::Ite(d, p, q) = nb {
                        // independent conditions on both sides
                        if x == p && y == q {
                            return self.diff(c, d, &format!("{ctx} condition"));
                        }
                        let nd = self.ev.tm.not(d);
                        let a1 = self.ev.restrict(a, d);
                        let a2 = self.ev.restrict(a, nd);
                        if a1 == a && a2 == a {
                            return self.under(c, true, x, b, &s1).and(|| self.under(c, false, y, b, &s2));
                        }
                        let s1 = format!("{ctx} when {}", clip2(&self.ev.tm.show(d)));
                        let s2 = format!("{ctx} unless {}", clip2(&self.ev.tm.show(d)));
                        return self.under(d, true, a1, p, &s1).and(|| self.under(d, false, a2, q, &s2));
                    }
                }
                let r1 = self.under(c, true, x, b1, &s1);
                r1.and(|| self.under(c, false, y, b2, &s2))
            }
            (_, Node::Ite(c, x, y)) => {
                let (c, x, y) = (*c, *x, *y);
                let nc = self.ev.tm.not(c);
                let a1 = self.ev.restrict(a, c);
                let a2 = self.ev.restrict(a, nc);
                let s1 = format!("{ctx} when {}", clip2(&self.ev.tm.show(c)));
                let s2 = format!("{ctx} unless {}", clip2(&self.ev.tm.show(c)));
                let r1 = self.under(c, true, a1, x, &s1);
                r1.and(|| self.under(c, false, a2, y, &s2))
            }
            (Node::Store(x, i, v), Node::Store(y, j, w)) => {
                let (x, i, v, y, j, w) = (*x, *i, *v, *y, *j, *w);
                if i == j {
                    return self.diff(x, y, ctx).and(|| self.diff(v, w, &format!("{ctx}[..]")));
                }
                if x == y {
                    return self.diff(i, j, &format!("{ctx} index"));
                }
                self.stores(a, b, ctx)
            }
            (Node::Store(..), _) | (_, Node::Store(..)) if self.store_base(a) == self.store_base(b) => self.stores(a, b, ctx),
            (Node::Seq(p, f), Node::Seq(q, g)) => {
                if p == q {
                    if let Some(m) = self.bounded_vs_unbounded(f, g, ctx) {
                        return Diff::Definite(m);
                    }
                }
                if f.len() != g.len() {
                    let ones = |v: &Vec<Item>| v.iter().all(|i| matches!(i, Item::One(..)));
                    if p == q && ones(f) && ones(g) {
                        let sure = f.iter().chain(g).all(|i| matches!(i, Item::One(gd, _) if *gd == self.ev.tm.tt));
                        if sure {
                            return self.definite(a, b, &format!("{ctx}: {} elements instead of {}", f.len(), g.len()));
                        }
                        // a guarded element missing or added
                        let rest = if f.len() < g.len() { g } else { f };
                        let short = if f.len() < g.len() { f } else { g };
                        let extra: Vec<&Item> = rest.iter().filter(|i| !short.contains(i)).collect();
                        if short.iter().all(|i| rest.contains(i)) && !extra.is_empty() {
                            return self.definite(a, b, &format!("{ctx}: {} elements instead of {}", f.len(), g.len()));
                        }
                    }
                    if p == q && self.effects_exist && ctx.starts_with("effects") {
                        if let Some(d) = self.missing_items(f, g, ctx) {
                            return d;
                        }
                    }
                    return Diff::Maybe(format!("{ctx}: sequences of different shape: {} / {}", clip(&self.ev.tm.show(a)), clip(&self.ev.tm.show(b))));
                }
                let (f, g) = (f.clone(), g.clone());
                let mut r = self.diff(*p, *q, ctx);
                for (k, (x, y)) in f.iter().zip(&g).enumerate() {
                    let c = format!("{ctx}<{k}>");
                    r = r.and(|| self.item_diff(x, y, &c));
                }
                r
            }
            (Node::Fold(n, i1, x1, e1, s1), Node::Fold(m, i2, x2, e2, s2)) if i1.len() == i2.len() && s1 == s2 => {
                let inf = self.ev.tm.path("inf");
                if n != m && (*n == inf || *m == inf) {
                    return Diff::Maybe(format!("{ctx}: number of iterations not known"));
                }
                let mut r = self.diff(*n, *m, &format!("{ctx} loop count"));
                // outcomes of the loops that the path settles, e.g. that something was found
                let last: Vec<(T, bool)> = self
                    .path
                    .clone()
                    .into_iter()
                    .filter_map(|(t, v)| match self.ev.tm.n(t).clone() {
                        Node::Fold(_, i, x, _, 0) if (&i[1..], &x[1..]) == (&i1[1..], &x1[1..]) || (&i[1..], &x[1..]) == (&i2[1..], &x2[1..]) => {
                            let own = self.ev.tm.mk(Node::BV(1));
                            if self.ev.tm.occurs(x[0], own) { None } else { Some((x[0], v)) }
                        }
                        _ => None,
                    })
                    .collect();
                let sel = i1.len();
                for (k, (p, q)) in i1.iter().zip(i2).chain(x1.iter().zip(x2)).chain([(e1, e2)]).enumerate() {
                    let (p, q) = (*p, *q);
                    r = r.and(|| match self.inside(p, q, &format!("{ctx} loop")) {
                        Diff::Definite(m) if k == sel && !last.is_empty() => {
                            let saved = std::mem::replace(&mut self.path, last.clone());
                            let d = self.diff(p, q, &format!("{ctx} loop"));
                            self.path = saved;
                            match d {
                                Diff::Definite(m) => Diff::Definite(m),
                                _ => Diff::Maybe(m),
                            }
                        }
                        d => d,
                    });
                }
                soften(r)
            }
            (Node::Loop(i1, c1, x1, s1), Node::Loop(i2, c2, x2, s2)) if i1.len() == i2.len() && s1 == s2 => {
                let mut r = self.inside(*c1, *c2, &format!("{ctx} loop condition"));
                for (p, q) in i1.iter().zip(i2).chain(x1.iter().zip(x2)) {
                    let (p, q) = (*p, *q);
                    r = r.and(|| self.inside(p, q, &format!("{ctx} loop")));
                }
                soften(r)
            }
            (Node::Lam(n, p), Node::Lam(m, q)) if n == m => self.inside(*p, *q, ctx),
            (Node::Field(p, f), Node::Field(q, g)) if f == g && self.same_head(*p, *q) => self.diff(*p, *q, ctx),
            (Node::Sum(n, p), Node::Sum(m, q)) | (Node::Any(n, p), Node::Any(m, q)) => {
                let (n, p, m, q) = (*n, *p, *m, *q);
                if n != m && p != q {
                    // everything in one list against everything in another
                    let all_of = |s: &Self, n: T, p: T| match s.ev.tm.n(n) {
                        Node::App(f, x) if f == "len" => {
                            let x = x[0];
                            let mut whole = false;
                            s.ev.tm.walk(p, &mut |_, y| whole |= matches!(y, Node::Index(z, i) if *z == x && matches!(s.ev.tm.n(*i), Node::BV(0))));
                            if whole && matches!(s.ev.tm.n(x), Node::Field(..) | Node::Sym(_)) { Some(x) } else { None }
                        }
                        _ => None,
                    };
                    if let (Some(x), Some(y)) = (all_of(self, n, p), all_of(self, m, q)) {
                        if x != y {
                            return self.definite(x, y, &format!("{ctx} over all elements"));
                        }
                    }
                    if matches!(na, Node::Sum(..)) {
                        return self.sum_diff(a, b, n, p, m, q, ctx);
                    }
                    return Diff::Maybe(format!("{ctx}: sums over different ranges"));
                }
                self.diff(n, m, &format!("{ctx} range")).and(|| self.inside(p, q, &format!("{ctx} summand")))
            }
            // a[k(i)] := v(i) for i < n, where k(i) is within a
            (Node::App(f, x), Node::App(g, y)) if f == "scatter" && g == "scatter" && x[1] != y[1] && x[2] == y[2] => {
                let (x, y) = (x.clone(), y.clone());
                let mut n = [x[1], y[1]];
                if matches!(self.ev.tm.n(x[2]), Node::Lam(1, k) if matches!(self.ev.tm.n(*k), Node::BV(0))) {
                    for (s, n) in [x[0], y[0]].into_iter().zip(n.iter_mut()) {
                        let l = self.ev.tm.len(s);
                        let c = self.ev.tm.lt(l, *n);
                        *n = self.ev.tm.ite(c, l, *n);
                    }
                }
                self.diff(x[0], y[0], &format!("{ctx}: initial values"))
                    .and(|| self.count_diff(n[0], n[1], &format!("{ctx}: number of elements set")))
                    .and(|| self.diff(x[3], y[3], &format!("{ctx}: value set")))
            }
            (Node::App(f, x), Node::App(g, y)) if f == g && x.len() == y.len() && !matches!(f.as_str(), "min" | "max") => {
                let mut r = Diff::Same;
                for (k, (p, q)) in x.iter().zip(y).enumerate() {
                    let (p, q) = (*p, *q);
                    let c = format!("{ctx}: {f}({k})");
                    r = r.and(|| self.diff(p, q, &c));
                }
                r
            }
            (Node::App(f, x), o) | (o, Node::App(f, x)) if matches!(f.as_str(), "min" | "max") && x.len() == 2 && !matches!(o, Node::App(g, _) if g == "min" || g == "max") => {
                // case split
                let (x, y) = (x[0], x[1]);
                let c = if f == "min" { self.ev.tm.lt(x, y) } else { self.ev.tm.lt(y, x) };
                let split = |s: &mut Self, t: T, left: bool| if matches!(s.ev.tm.n(t), Node::App(g, v) if g == f && v[0] == x && v[1] == y) { if left { x } else { y } } else { t };
                let (a1, b1) = (split(self, a, true), split(self, b, true));
                let (a2, b2) = (split(self, a, false), split(self, b, false));
                let s1 = format!("{ctx} when {}", clip2(&self.ev.tm.show(c)));
                let s2 = format!("{ctx} unless {}", clip2(&self.ev.tm.show(c)));
                self.under(c, true, a1, b1, &s1).and(|| self.under(c, false, a2, b2, &s2))
            }
            (Node::Poly(_), _) | (_, Node::Poly(_)) => self.poly_diff(a, b, ctx),
            // an enum value taken apart and put together again
            (Node::Struct(n, f), Node::App(..) | Node::Index(..) | Node::Field(..) | Node::Sym(..)) if self.ev.tm.is_variant(n) && !f.is_empty() => {
                let (n, f) = (n.clone(), f.clone());
                let tt = self.ev.tm.tt;
                let i = self.ev.tm.is(b, &n);
                let mut r = self.diff(tt, i, ctx);
                for (k, x) in f {
                    let y = self.ev.tm.payload(b, &n, &k);
                    r = r.and(|| self.under(i, true, x, y, &format!("{ctx}.{k}")));
                }
                r
            }
            (Node::App(..) | Node::Index(..) | Node::Field(..) | Node::Sym(..), Node::Struct(n, f)) if self.ev.tm.is_variant(n) && !f.is_empty() => {
                let (n, f) = (n.clone(), f.clone());
                let tt = self.ev.tm.tt;
                let i = self.ev.tm.is(a, &n);
                let mut r = self.diff(i, tt, ctx);
                for (k, y) in f {
                    let x = self.ev.tm.payload(a, &n, &k);
                    r = r.and(|| self.under(i, true, x, y, &format!("{ctx}.{k}")));
                }
                r
            }
            // a vector taken apart and put together again
            (Node::Struct(n, f), o) if n == "vec" || !self.ev.tm.is_variant(n) && !f.is_empty() && matches!(o, Node::App(..) | Node::Index(..) | Node::Field(..) | Node::Sym(..)) => {
                let f = f.clone();
                let mut r = Diff::Same;
                for (k, x) in f {
                    let y = self.ev.tm.field(b, &k);
                    r = r.and(|| self.diff(x, y, &format!("{ctx}.{k}")));
                }
                r
            }
            (o, Node::Struct(n, f)) if n == "vec" || !self.ev.tm.is_variant(n) && !f.is_empty() && matches!(o, Node::App(..) | Node::Index(..) | Node::Field(..) | Node::Sym(..)) => {
                let f = f.clone();
                let mut r = Diff::Same;
                for (k, y) in f {
                    let x = self.ev.tm.field(a, &k);
                    r = r.and(|| self.diff(x, y, &format!("{ctx}.{k}")));
                }
                r
            }
            _ => self.definite(a, b, ctx),
        }
    }
    /// one side picks the largest and the other the smallest by the same measure
    fn opposite_extremes(&mut self, a: T, b: T) -> bool {
        let mut found: Vec<Vec<(bool, Vec<T>, T, T)>> = vec![];
        for t in [a, b] {
            let mut v = vec![];
            let common = &self.common;
            self.ev.tm.walk(t, &mut |x, n| {
                if let Node::App(f, y) = n {
                    if matches!(f.as_str(), "itmax_by_key" | "itmin_by_key") && y.len() == 2 && !common.contains(&x) {
                        v.push((f == "itmax_by_key", y[0], y[1]));
                    }
                }
            });
            let mut w = vec![];
            for (max, seq, key) in v {
                let Node::Seq(_, items) = self.ev.tm.n(seq).clone() else { return false };
                let [Item::Gen(c, g, v)] = &items[..] else { return false };
                let Node::Lam(1, body) = *self.ev.tm.n(key) else { return false };
                let k = self.ev.tm.open1(body, *v);
                let k = match self.ev.tm.n(k) {
                    Node::App(f, x) if f.ends_with("OrderedFloat") => x[0],
                    _ => k,
                };
                w.push((max, c.clone(), *g, k));
            }
            found.push(w);
        }
        let ([x], [y]) = (&found[0][..], &found[1][..]) else { return false };
        if x.1 != y.1 || x.2 != y.2 {
            return false;
        }
        let (p, q) = (x.3, y.3);
        let e = if x.0 == y.0 { self.ev.tm.add(p, q) } else { self.ev.tm.sub(p, q) };
        self.ev.tm.as_num(e).is_some() && self.ev.tm.as_num(p).is_none()
    }
    /// one list of effects is the other with some left out
    fn missing_items(&mut self, f: &[Item], g: &[Item], ctx: &str) -> Option<Diff> {
        let (short, long, less) = if f.len() < g.len() { (f, g, true) } else { (g, f, false) };
        let mut extra = vec![];
        let mut k = 0;
        for i in long {
            if k < short.len() && short[k] == *i {
                k += 1;
            } else {
                extra.push(i.clone());
            }
        }
        if k < short.len() || !self.possible(&self.path) {
            return None;
        }
        let mut parts: Vec<T> = self.path.iter().map(|x| x.0).collect();
        let tt = self.ev.tm.tt;
        for i in &extra {
            match i {
                Item::One(c, v) => parts.extend([*c, *v]),
                Item::Gen(n, c, v) => {
                    parts.extend(n);
                    parts.extend([*c, *v]);
                }
                _ => return None,
            }
        }
        let mut v = BTreeSet::new();
        for t in &parts {
            vocab(self.ev, *t, &mut v);
            if murky(self.ev, *t, &self.common).is_some() {
                return None;
            }
        }
        if v.iter().any(|x| !self.known.contains(x) && !x.starts_with("path ")) {
            return None;
        }
        let _ = tt;
        let base = self.ev.tm.path("[]");
        let t = self.ev.tm.seq(base, extra);
        let what = clip(&self.ev.tm.show(t));
        Some(Diff::Definite(format!("{ctx}: {} {what}", if less { "does not do" } else { "also does" })))
    }
    /// least and greatest number of elements, as far as literal elements settle it
    fn len_bounds(&self, t: T) -> (usize, Option<usize>) {
        match self.ev.tm.n(t) {
            Node::Array(x) => (x.len(), Some(x.len())),
            Node::Path(p) if p == "[]" => (0, Some(0)),
            Node::Seq(b, items) => {
                let (mut lo, mut hi) = self.len_bounds(*b);
                for i in items {
                    match i {
                        Item::One(g, _) => {
                            lo += (*g == self.ev.tm.tt) as usize;
                            hi = hi.map(|h| h + 1);
                        }
                        _ => hi = None,
                    }
                }
                (lo, hi)
            }
            _ => (0, None),
        }
    }
    /// two sequences that cannot have the same number of elements
    fn other_length(&mut self, a: T, b: T) -> Option<String> {
        let ((la, ha), (lb, hb)) = (self.len_bounds(a), self.len_bounds(b));
        if ha.is_some_and(|h| h < lb) || hb.is_some_and(|h| h < la) {
            return Some("another number of elements".into());
        }
        // unconditional elements only: the lengths are sums of counts
        for t in [a, b] {
            let Node::Seq(base, items) = self.ev.tm.n(t) else { continue };
            let base_ok = matches!(self.ev.tm.n(*base), Node::Array(_) | Node::Sym(_) | Node::Field(..)) || matches!(self.ev.tm.n(*base), Node::Path(p) if p == "[]");
            let tt = self.ev.tm.tt;
            if !base_ok || !items.iter().all(|i| matches!(i, Item::One(g, _) if *g == tt) || matches!(i, Item::Gen(c, g, _) if *g == tt && c.len() == 1)) {
                return None;
            }
        }
        let (x, y) = (self.ev.tm.len(a), self.ev.tm.len(b));
        let d = self.ev.tm.sub(x, y);
        match self.ev.tm.as_i64(d) {
            Some(k) if k != 0 => Some(format!("{} elements {}", k.abs(), if k > 0 { "too many" } else { "too few" })),
            _ => None,
        }
    }
    fn store_base(&self, mut t: T) -> T {
        while let Node::Store(b, _, _) = self.ev.tm.n(t) {
            t = *b;
        }
        t
    }
    /// arrays written at several places: compare what every written place holds
    fn stores(&mut self, a: T, b: T, ctx: &str) -> Diff {
        if self.store_base(a) != self.store_base(b) {
            return Diff::Maybe(format!("{ctx}: stores differ"));
        }
        let mut keys = vec![];
        for t in [a, b] {
            let mut t = t;
            while let Node::Store(x, k, _) = self.ev.tm.n(t) {
                if !keys.contains(k) {
                    keys.push(*k);
                }
                t = *x;
            }
        }
        if keys.len() > 24 {
            return Diff::Maybe(format!("{ctx}: stores differ"));
        }
        let mut r = Diff::Same;
        for k in keys {
            let x = self.ev.tm.index(a, k);
            let y = self.ev.tm.index(b, k);
            let c = format!("{ctx}[{}]", clip2(&self.ev.tm.show(k)));
            r = r.and(|| self.diff(x, y, &c));
        }
        r
    }
    /// sums whose ranges differ by a known number of terms at one end
    #[allow(clippy::too_many_arguments)]
    fn sum_diff(&mut self, a: T, b: T, n: T, p: T, m: T, q: T, ctx: &str) -> Diff {
        let maybe = Diff::Maybe(format!("{ctx}: sums over different ranges"));
        let d = self.ev.tm.sub(n, m);
        let Some(d) = self.ev.tm.as_i64(d) else { return maybe };
        if d == 0 || d.abs() > 8 {
            return maybe;
        }
        // f: the summand of the longer sum, g: of the shorter
        let (f, g, long, k) = if d > 0 { (p, q, n, d) } else { (q, p, m, -d) };
        let i = self.ev.tm.fresh("i");
        self.ev.tm.mark_int(i);
        let gi = self.ev.tm.open1(g, i);
        let kk = self.ev.tm.int(k);
        let ik = self.ev.tm.add(i, kk);
        let shifted = self.ev.tm.open1(f, ik);
        let plain = self.ev.tm.open1(f, i);
        if gi != shifted && gi != plain {
            return maybe;
        }
        let at = if gi == shifted {
            self.ev.tm.zero
        } else {
            let one = self.ev.tm.one;
            self.ev.tm.sub(long, one)
        };
        let extra = self.ev.tm.open1(f, at);
        let zero = self.ev.tm.zero;
        if extra == zero {
            return maybe;
        }
        match self.definite(extra, zero, &format!("{ctx}: additional term of the sum")) {
            Diff::Definite(s) => match self.definite(a, b, ctx) {
                Diff::Definite(_) => Diff::Definite(s),
                x => x,
            },
            x => x,
        }
    }
    fn poly_diff(&mut self, a: T, b: T, ctx: &str) -> Diff {
        // a - b has a single pair of monomials with opposite coefficients that
        // differ in one atom: compare the atoms
        let d = self.ev.tm.sub(a, b);
        if let Node::Poly(ms) = self.ev.tm.n(d).clone() {
            if ms.len() == 2 {
                let (m1, c1) = &ms[0];
                let (m2, c2) = &ms[1];
                if -c1.clone() == *c2 {
                    let only1: Vec<_> = m1.iter().filter(|x| !m2.contains(x)).collect();
                    let only2: Vec<_> = m2.iter().filter(|x| !m1.contains(x)).collect();
                    if only1.len() == 1 && only2.len() == 1 && only1[0].1 == only2[0].1 {
                        let (x, y) = (only1[0].0, only2[0].0);
                        if !matches!((self.ev.tm.n(x), self.ev.tm.n(y)), (Node::Poly(_), _) | (_, Node::Poly(_))) {
                            return self.diff(x, y, ctx);
                        }
                    }
                }
            }
        }
        if d == self.ev.tm.zero {
            return Diff::Same;
        }
        // several monomials: pair those that differ in a single factor
        if let Node::Poly(ms) = self.ev.tm.n(d).clone() {
            if ms.len() > 2 && ms.len() % 2 == 0 && ms.len() <= 16 {
                let mut used = vec![false; ms.len()];
                let mut pairs = vec![];
                for i in 0..ms.len() {
                    if used[i] {
                        continue;
                    }
                    for j in i + 1..ms.len() {
                        if used[j] || -ms[i].1.clone() != ms[j].1 {
                            continue;
                        }
                        let o1: Vec<_> = ms[i].0.iter().filter(|x| !ms[j].0.contains(x)).collect();
                        let o2: Vec<_> = ms[j].0.iter().filter(|x| !ms[i].0.contains(x)).collect();
                        if o1.len() == 1 && o2.len() == 1 && o1[0].1 == o2[0].1 && self.same_head(o1[0].0, o2[0].0) {
                            // keep the implementation's atom first
                            let from_a = matches!(self.ev.tm.n(a), Node::Poly(pa) if pa.iter().any(|(m, _)| *m == ms[i].0));
                            pairs.push(if from_a { (o1[0].0, o2[0].0) } else { (o2[0].0, o1[0].0) });
                            used[i] = true;
                            used[j] = true;
                            break;
                        }
                    }
                }
                if used.iter().all(|x| *x) {
                    pairs.sort();
                    pairs.dedup();
                    let mut r = Diff::Same;
                    for (x, y) in pairs {
                        r = r.and(|| self.diff(x, y, ctx));
                    }
                    return r;
                }
            }
        }
        self.definite(a, b, ctx)
    }
    /// the same shape of non-polynomial term on both sides
    fn same_head(&self, a: T, b: T) -> bool {
        match (self.ev.tm.n(a), self.ev.tm.n(b)) {
            (Node::Fold(_, i, _, _, s), Node::Fold(_, j, _, _, t)) => i.len() == j.len() && s == t,
            (Node::Loop(i, _, _, s), Node::Loop(j, _, _, t)) => i.len() == j.len() && s == t,
            (Node::Field(p, f), Node::Field(q, g)) => f == g && self.same_head(*p, *q),
            (Node::App(f, x), Node::App(g, y)) => f == g && x.len() == y.len(),
            (Node::Sum(..), Node::Sum(..)) => true,
            _ => false,
        }
    }
    fn bool_diff(&mut self, a: T, b: T, ctx: &str) -> Diff {
        // difference of two decision diagrams; definite only if some path to
        // disagreement consists of independent atoms
        let nb = self.ev.tm.not(b);
        let x = self.ev.tm.ite(a, nb, b);
        if x == self.ev.tm.ff {
            return Diff::Same;
        }
        let mut atoms = vec![];
        self.atoms(a, &mut atoms);
        self.atoms(b, &mut atoms);
        atoms.sort();
        atoms.dedup();
        // arithmetic atoms over the same quantities may imply each other
        if let (Node::Any(..), Node::Any(..)) = (self.ev.tm.n(a), self.ev.tm.n(b)) {
            if let (Node::Any(n, p), Node::Any(m, q)) = (self.ev.tm.n(a).clone(), self.ev.tm.n(b).clone()) {
                if n != m && p != q {
                    return Diff::Maybe(format!("{ctx}: quantifiers over different ranges"));
                }
                return self.diff(n, m, &format!("{ctx} range")).and(|| self.inside(p, q, &format!("{ctx} predicate")));
            }
        }
        // x != y against x < y for counts: the same where the difference cannot be negative
        for t in &atoms {
            if let Node::Eq0(q) | Node::Lt0(q) = *self.ev.tm.n(*t) {
                let ints = match self.ev.tm.n(q) {
                    Node::Poly(ms) => ms.iter().all(|(m, c)| c.is_integer() && m.iter().all(|(u, _)| self.ev.tm.is_int(*u))),
                    _ => self.ev.tm.is_int(q),
                };
                let l = self.ev.tm.mk(Node::Lt0(q));
                let e = self.ev.tm.mk(Node::Eq0(q));
                if !ints || !atoms.contains(&l) || !atoms.contains(&e) {
                    continue;
                }
                let pos = self.ev.tm.not(l);
                let neg = self.ev.tm.or(l, e);
                for h in [pos, neg] {
                    // not if the specification's condition would be vacuous
                    let yes = self.ev.tm.and(b, h);
                    let no = self.ev.tm.and(nb, h);
                    if self.consistent_path(yes, &mut self.path.clone()).is_none() || self.consistent_path(no, &mut self.path.clone()).is_none() {
                        continue;
                    }
                    let both = self.ev.tm.and(x, h);
                    if self.consistent_path(both, &mut self.path.clone()).is_none() {
                        return Diff::Maybe(format!("{ctx}: conditions agree if {} does not change sign", self.ev.tm.show(q)));
                    }
                }
            }
        }
        self.path_budget = 20000;
        if let Some(c) = self.consistent_path(x, &mut self.path.clone()) {
            let msg = format!("{ctx} if {}", clip2(&c));
            return self.definite(a, b, &msg);
        }
        if self.path_budget > 0 && self.refuted(x, &mut self.path.clone(), &mut 400) {
            return Diff::Same;
        }
        Diff::Maybe(format!("{ctx}: conditions differ only on paths not shown consistent: {} / {}", clip(&self.ev.tm.show(a)), clip(&self.ev.tm.show(b))))
    }
    fn atoms(&self, t: T, out: &mut Vec<T>) {
        let mut seen = BTreeSet::new();
        self.atoms_rec(t, out, &mut seen);
    }
    fn atoms_rec(&self, t: T, out: &mut Vec<T>, seen: &mut BTreeSet<T>) {
        if !seen.insert(t) {
            return;
        }
        match self.ev.tm.n(t) {
            Node::Ite(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                self.atoms_rec(c, out, seen);
                self.atoms_rec(a, out, seen);
                self.atoms_rec(b, out, seen);
            }
            Node::Bool(_) => {}
            _ => out.push(t),
        }
    }
    /// is every path to `true` contradictory?
    fn refuted(&mut self, x: T, lits: &mut Vec<(T, bool)>, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        match self.ev.tm.n(x).clone() {
            Node::Bool(false) => true,
            Node::Bool(true) => !crate::lin::consistent(&self.ev.tm, lits),
            Node::Ite(c, a, b) => {
                for (v, y) in [(true, a), (false, b)] {
                    lits.push((c, v));
                    let r = y == self.ev.tm.ff || !crate::lin::consistent(&self.ev.tm, lits) || self.refuted(y, lits, budget);
                    lits.pop();
                    if !r {
                        return false;
                    }
                }
                true
            }
            _ => {
                lits.push((x, true));
                let r = !crate::lin::consistent(&self.ev.tm, lits);
                lits.pop();
                r
            }
        }
    }
    /// a path to `true` whose literals cannot contradict each other
    fn consistent_path(&mut self, x: T, lits: &mut Vec<(T, bool)>) -> Option<String> {
        if self.path_budget == 0 {
            return None;
        }
        self.path_budget -= 1;
        match self.ev.tm.n(x).clone() {
            Node::Bool(false) => None,
            Node::Bool(true) => {
                if self.possible(lits) {
                    let s: Vec<String> = lits.iter().map(|(t, p)| format!("{}{}", if *p { "" } else { "not " }, self.ev.tm.show(*t))).collect();
                    Some(s.join(" and "))
                } else {
                    None
                }
            }
            Node::Ite(c, a, b) => {
                lits.push((c, true));
                if let Some(r) = self.consistent_path(a, lits) {
                    lits.pop();
                    return Some(r);
                }
                lits.pop();
                lits.push((c, false));
                let r = self.consistent_path(b, lits);
                lits.pop();
                r
            }
            _ => {
                lits.push((x, true));
                let r = if self.possible(lits) {
                    Some(lits.iter().map(|(t, p)| format!("{}{}", if *p { "" } else { "not " }, self.ev.tm.show(*t))).collect::<Vec<_>>().join(" and "))
                } else {
                    None
                };
                lits.pop();
                r
            }
        }
    }
    /// a fixed number of elements against one for every element of an input
    fn bounded_vs_unbounded(&mut self, f: &[Item], g: &[Item], ctx: &str) -> Option<String> {
        let few = |v: &[Item]| !v.is_empty() && v.iter().all(|i| matches!(i, Item::One(..)));
        let (short, long, less) = match (few(f), few(g)) {
            (true, false) => (f, g, true),
            (false, true) => (g, f, false),
            _ => return None,
        };
        let head = |s: &Self, t: T| match s.ev.tm.n(t) {
            Node::App(f, _) => Some(f.clone()),
            Node::Struct(f, _) => Some(f.clone()),
            _ => None,
        };
        let Item::One(_, v) = short[0] else { return None };
        let h = head(self, v)?;
        if !short.iter().all(|i| matches!(i, Item::One(_, x) if head(self, *x).as_ref() == Some(&h))) {
            return None;
        }
        for i in long {
            let Item::Gen(cs, gd, x) = i else { return None };
            let free = cs.iter().all(|c| match self.ev.tm.n(*c) {
                Node::App(l, x) if l == "len" => {
                    let mut t = x[0];
                    loop {
                        match self.ev.tm.n(t) {
                            Node::Field(p, _) => t = *p,
                            Node::Sym(_) => break true,
                            _ => break false,
                        }
                    }
                }
                _ => false,
            });
            if !free || head(self, *x).as_ref() != Some(&h) {
                return None;
            }
            for t in [*gd, *x] {
                if murky(self.ev, t, &self.common).is_some() {
                    return None;
                }
            }
            for c in cs {
                let mut seen = false;
                for (t, _) in &self.path {
                    self.ev.tm.walk(*t, &mut |y, _| seen |= y == *c);
                }
                if seen {
                    return None;
                }
            }
        }
        let n = short.len();
        Some(if less { format!("{ctx}: at most {n} {h} instead of one for every element") } else { format!("{ctx}: {h} for every element instead of at most {n}") })
    }
    /// numbers of iterations: no matter how much below zero
    fn count_diff(&mut self, p: T, q: T, ctx: &str) -> Diff {
        if p == q {
            return Diff::Same;
        }
        let tm = &mut self.ev.tm;
        let z = tm.zero;
        let (a, b) = (tm.lt(z, p), tm.lt(z, q));
        let some = tm.or(a, b);
        if some == tm.tt || tm.has_opaque(some) {
            return self.diff(p, q, ctx);
        }
        self.under(some, true, p, q, ctx)
    }
    /// number of iterations of a loop that ends, rather than reads past the end of what its body indexes
    fn within_bounds(&mut self, count: T, bodies: &[T]) -> T {
        let tm = &mut self.ev.tm;
        let mut lens = vec![];
        let mut seen = HashSet::new();
        let mut stack: Vec<T> = bodies.to_vec();
        while let Some(x) = stack.pop() {
            if !seen.insert(x) || matches!(tm.n(x), Node::Ite(..)) {
                continue;
            }
            let n = tm.n(x).clone();
            if let Node::Index(s, i) = n {
                if matches!(tm.n(i), Node::BV(0)) && tm.max_bv_is_free_of0(s) && !tm.has_opaque(s) {
                    let z = tm.zero;
                    let s = tm.open1(s, z);
                    lens.push(tm.len(s));
                }
            }
            stack.extend(tm.children(&n).into_iter().filter(|c| c.1 == 0).map(|c| c.0));
        }
        lens.sort();
        lens.dedup();
        let mut n = count;
        for l in lens {
            let z = self.ev.tm.sub(l, count);
            if self.ev.tm.as_num(z).is_none() {
                let c = self.ev.tm.lt(l, n);
                n = self.ev.tm.ite(c, l, n);
            }
        }
        n
    }
    fn item_diff(&mut self, x: &Item, y: &Item, ctx: &str) -> Diff {
        match (x, y) {
            (Item::One(g, v), Item::One(h, w)) | (Item::Splice(g, v), Item::Splice(h, w)) => {
                let (g, v, h, w) = (*g, *v, *h, *w);
                self.diff(g, h, &format!("{ctx} presence")).and(|| self.under(g, true, v, w, ctx))
            }
            (Item::Gen(c, g, v), Item::Gen(d, h, w)) if c.len() == d.len() => {
                let mut r = Diff::Same;
                if c != d && g != h {
                    // a longer loop with a filter may be the same elements
                    return Diff::Maybe(format!("{ctx}: different ranges with different filters"));
                }
                let (g, v, h, w) = (*g, *v, *h, *w);
                for (i, (p, q)) in c.iter().zip(d).enumerate() {
                    let (mut p, mut q) = (*p, *q);
                    if p != q && i + 1 == c.len() {
                        (p, q) = (self.within_bounds(p, &[g, v]), self.within_bounds(q, &[h, w]));
                    }
                    r = r.and(|| self.count_diff(p, q, &format!("{ctx} count")));
                }
                let saved = self.path.clone();
                self.shift_path(c.len() as u32);
                if c == d {
                    // the same number of iterations, however it is determined
                    for t in c {
                        let mut seen = vec![];
                        self.ev.tm.walk(*t, &mut |x, _| seen.push(x));
                        if !self.ev.tm.has_opaque(*t) {
                            self.common.extend(seen);
                        }
                    }
                    let range = self.ev.tm.in_range(c);
                    self.path.extend(range);
                }
                let r = r.and(|| self.diff(g, h, &format!("{ctx} filter"))).and(|| self.under(g, true, v, w, &format!("{ctx} element")));
                self.path = saved;
                r
            }
            (Item::Loop(c, v), Item::Loop(d, w)) if v.len() == w.len() => {
                let (mut c, mut d) = (*c, *d);
                if c != d {
                    let parts = |v: &Vec<Item>| -> Vec<T> { v.iter().flat_map(|i| if let Item::One(g, x) = i { vec![*g, *x] } else { vec![] }).collect() };
                    (c, d) = (self.within_bounds(c, &parts(v)), self.within_bounds(d, &parts(w)));
                }
                let mut r = self.count_diff(c, d, &format!("{ctx} count"));
                for (p, q) in v.iter().zip(w) {
                    let saved = self.path.clone();
                    self.shift_path(1);
                    r = r.and(|| self.item_diff(p, q, ctx));
                    self.path = saved;
                }
                r
            }
            (Item::Loop(c, v), Item::Loop(d, w)) if c == d && self.effects_exist && ctx.starts_with("effects") => {
                let saved = self.path.clone();
                self.shift_path(1);
                let r = self.missing_items(v, w, ctx);
                self.path = saved;
                r.unwrap_or_else(|| Diff::Maybe(format!("{ctx}: different sequence structure")))
            }
            // one operation per iteration against several
            (Item::Gen(..), Item::Loop(..)) | (Item::Loop(..), Item::Gen(..)) if self.effects_exist && ctx.starts_with("effects") => {
                let open = |i: &Item| match i {
                    Item::Gen(c, g, v) => c.iter().rev().fold(Item::One(*g, *v), |b, n| Item::Loop(*n, vec![b])),
                    x => x.clone(),
                };
                self.item_diff(&open(x), &open(y), ctx)
            }
            _ => Diff::Maybe(format!("{ctx}: different sequence structure")),
        }
    }
}
/// inside general folds the normal form is not canonical with respect to the
/// carried variables, but a difference in one step is still a difference of the loop
fn soften(d: Diff) -> Diff {
    d
}
pub fn clip(s: &str) -> String {
    if s.chars().count() > 400 {
        let t: String = s.chars().take(if std::env::var_os("VG_DEPTH").is_some() { 1000000 } else { 400 }).collect();
        format!("{t}…")
    } else {
        s.into()
    }
}
fn clip2(s: &str) -> String {
    if s.chars().count() > 160 {
        let t: String = s.chars().take(160).collect();
        format!("{t}…")
    } else {
        s.into()
    }
}

pub fn find_target(prog: &Program, f: &FnInfo, o: &SpecOpts) -> Result<usize, String> {
    let want = o.target.clone().unwrap_or_else(|| f.qual());
    let segs: Vec<&str> = want.split("::").collect();
    let name = *segs.last().unwrap();
    let cands: Vec<usize> = prog
        .fns
        .iter()
        .filter(|g| {
            g.name == name && !g.file.starts_with("spec/") && !g.in_test && {
                if o.target.is_some() {
                    g.qual() == want
                } else {
                    g.self_name == f.self_name && (f.trait_.is_none() || g.trait_ == f.trait_) && g.block.is_some()
                }
            } && o.trait_.as_ref().map(|t| g.trait_.as_ref() == Some(t)).unwrap_or(true)
        })
        .map(|g| g.id)
        .collect();
    let norm = |t: &Option<syn::Type>| t.as_ref().map(|t| quote::quote!(#t).to_string());
    let sty = norm(&f.self_ty);
    let v1: Vec<usize> = cands.iter().copied().filter(|i| prog.fns[*i].module == f.module).collect();
    let pool = if v1.is_empty() { cands } else { v1 };
    if pool.len() == 1 {
        return Ok(pool[0]);
    }
    let v2: Vec<usize> = pool.iter().copied().filter(|i| norm(&prog.fns[*i].self_ty) == sty).collect();
    if v2.len() == 1 {
        return Ok(v2[0]);
    }
    // by parameter types (several From impls)
    let psig = |g: &FnInfo| {
        g.sig
            .inputs
            .iter()
            .map(|i| match i {
                syn::FnArg::Receiver(_) => "self".to_string(),
                syn::FnArg::Typed(t) => {
                    let t = &t.ty;
                    quote::quote!(#t).to_string()
                }
            })
            .collect::<Vec<_>>()
    };
    let pf = psig(f);
    let v3: Vec<usize> = (if v2.is_empty() { &pool } else { &v2 }).iter().copied().filter(|i| psig(&prog.fns[*i]) == pf).collect();
    if v3.len() == 1 {
        return Ok(v3[0]);
    }
    Err(format!("{} candidates for {want}", pool.len()))
}

/// a law: a boolean function over the repository's functions that must be
/// identically true
fn check_law(prog: &Rc<Program>, sid: usize, o: &SpecOpts, verbose: bool) -> Ob {
    let f = &prog.fns[sid];
    let mut opts = Opts { max_depth: 24, unroll: o.unroll, ..Default::default() };
    opts.opaque.extend(o.opaque.iter().cloned());
    opts.handles.extend(o.handles.iter().cloned());
    opts.effects.extend(o.effects.iter().cloned());
    let mut ev = Ev::new(prog.clone(), opts);
    ev.tm.keep_abs = o.keep_abs;
    let r = ev.run(sid);
    let inl: Vec<&FnInfo> = ev.inlined.iter().map(|i| &prog.fns[*i]).filter(|g| !g.file.starts_with("spec/")).collect();
    let mut ob = Ob {
        key: format!("law {}{}", f.qual(), o.feature.as_ref().map(|t| format!(" [{t}]")).unwrap_or_default()),
        rule: "law is identically true".into(),
        target: f.qual(),
        file: inl.first().map(|g| g.file.clone()).unwrap_or_default(),
        line: inl.first().map(|g| g.line).unwrap_or(0),
        verdict: Verdict::Holds,
        analysed: inl.iter().map(|g| g.qual()).collect(),
        detail: format!("{} terms", ev.tm.nodes.len()),
    };
    if verbose {
        eprintln!("-- law {} = {}\n   panics {}", f.name, ev.tm.show(r.ret), ev.tm.show(r.panics));
    }
    if inl.is_empty() && ev.consts_read == 0 {
        ob.verdict = Verdict::Unknown("anchor not found: no repository function reached".into());
        return ob;
    }
    if r.dead {
        ob.verdict = Verdict::Unknown("never returns".into());
        return ob;
    }
    let mut good = ev.tm.not(r.panics);
    for c in ev.assumed.clone() {
        good = ev.tm.and(good, c);
    }
    let ret = ev.restrict(r.ret, good);
    let tt = ev.tm.tt;
    let known: BTreeSet<String> = o.known.iter().cloned().collect();
    let mut df = Differ { ev: &mut ev, known, theirs: None, effects_exist: false, budget: 3000, path_budget: 20000, path: vec![], ground: vec![], settled: false, common: HashSet::new() };
    ob.verdict = match df.diff(ret, tt, "law") {
        Diff::Same => Verdict::Holds,
        Diff::Definite(s) => Verdict::Violated(s),
        Diff::Maybe(s) => Verdict::Unknown(s),
    };
    if o.no_panic && ob.verdict == Verdict::Holds {
        let ff = df.ev.tm.ff;
        ob.verdict = match df.diff(r.panics, ff, "panics") {
            Diff::Same => Verdict::Holds,
            Diff::Definite(s) => Verdict::Violated(s),
            Diff::Maybe(s) => Verdict::Unknown(s),
        };
    }
    ob
}

pub fn check_fn(prog: &Rc<Program>, sid: usize, o: &SpecOpts, verbose: bool) -> Ob {
    crate::lin::refuel();
    let mut ob = if o.law { check_law(prog, sid, o, verbose) } else { check_spec(prog, sid, o, verbose) };
    if crate::lin::exhausted() {
        if let Verdict::Violated(s) = &ob.verdict {
            ob.verdict = Verdict::Unknown(format!("work limit reached; {s}"));
        }
    }
    ob
}
/// number of calls, in the text of the given functions, of the functions named
fn calls_of(prog: &Program, fns: &[usize], names: &[String]) -> usize {
    let mut n = 0;
    fn count(ts: proc_macro2::TokenStream, names: &[&str], n: &mut usize) {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        for (k, t) in v.iter().enumerate() {
            match t {
                proc_macro2::TokenTree::Group(g) => count(g.stream(), names, n),
                proc_macro2::TokenTree::Ident(i) if names.contains(&i.to_string().as_str()) => {
                    if matches!(v.get(k + 1), Some(proc_macro2::TokenTree::Group(_))) {
                        *n += 1;
                    }
                }
                _ => {}
            }
        }
    }
    let names: Vec<&str> = names.iter().map(|x| x.rsplit("::").next().unwrap()).collect();
    for f in fns {
        if let Some(b) = &prog.fns[*f].block {
            count(quote::quote!(#b), &names, &mut n);
        }
    }
    n
}
/// names of the functions and methods called in the text of functions
fn called(prog: &Program, fns: &[usize]) -> BTreeSet<String> {
    fn go(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        for (k, t) in v.iter().enumerate() {
            match t {
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                proc_macro2::TokenTree::Ident(i) => {
                    if matches!(v.get(k + 1), Some(proc_macro2::TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis) {
                        out.insert(i.to_string());
                    }
                }
                _ => {}
            }
        }
    }
    let mut out = BTreeSet::new();
    for f in fns {
        if let Some(b) = &prog.fns[*f].block {
            go(quote::quote!(#b), &mut out);
        }
    }
    out
}
/// the effects named in the specification of a function
fn effects_of(prog: &Program, name: &str) -> Option<Vec<String>> {
    let segs: Vec<&str> = name.split("::").collect();
    let last = *segs.last().unwrap();
    let of = if segs.len() > 1 { Some(segs[segs.len() - 2]) } else { None };
    for f in &prog.fns {
        if f.file.starts_with("spec/") && f.name == last && of.map_or(true, |t| f.self_name.as_deref() == Some(t)) {
            if let Some(o) = spec_opts(&f.attrs) {
                if !o.effects.is_empty() && !o.law && !o.effects.iter().any(|e| e.rsplit("::").next() == Some(last) && !e.contains("::")) {
                    return Some(o.effects);
                }
            }
        }
    }
    None
}
fn check_spec(prog: &Rc<Program>, sid: usize, o: &SpecOpts, verbose: bool) -> Ob {
    let (ob, calls) = check_spec_once(prog, sid, o, verbose);
    if let Verdict::Violated(s) | Verdict::Unknown(s) = &ob.verdict {
        // a callee kept abstract has been written out in the caller: compare with
        // the callees written out on both sides
        // (a recursive call cannot be written out)
        let own = o.target.clone().unwrap_or_else(|| prog.fns[sid].name.clone());
        let own = own.rsplit("::").next().unwrap_or("");
        let mut fewer: Vec<String> = calls.iter().filter(|(n, a, b)| a < b && n.rsplit("::").next() != Some(own)).map(|x| x.0.clone()).collect();
        // an effect that is a function of the repository: its own effects, as its specification names them
        let mut inner = vec![];
        let mut written_out = false;
        fewer.retain(|n| {
            if !o.effects.contains(n) {
                return true;
            }
            match effects_of(prog, n) {
                Some(v) => {
                    inner.extend(v);
                    true
                }
                None => {
                    // the function itself may have been written out
                    let last = n.rsplit("::").next().unwrap();
                    let body: Vec<usize> = prog.fns.iter().filter(|f| f.name == last && !f.in_test && f.file.starts_with("src") && f.block.is_some()).map(|f| f.id).collect();
                    let mut names = called(prog, &body);
                    let ours = called(prog, &[sid]);
                    names.retain(|x| !ours.contains(x) && x != own && x.chars().next().is_some_and(|c| c.is_lowercase()));
                    if let Ok(t) = find_target(prog, &prog.fns[sid], o) {
                        let theirs = called(prog, &[t]);
                        written_out |= theirs.intersection(&names).next().is_some();
                    }
                    false
                }
            }
        });
        if written_out && fewer.is_empty() {
            if let Verdict::Violated(s) = &ob.verdict {
                let v = Verdict::Unknown(format!("an effect of the specification may be written out; {s}"));
                return Ob { verdict: v, ..ob };
            }
        }
        if !fewer.is_empty() {
            inner.extend(o.effects.iter().filter(|n| !fewer.contains(n)).cloned());
            let o2 = SpecOpts { opaque: o.opaque.iter().filter(|n| !fewer.contains(n)).cloned().collect(), effects: inner, ..o.clone() };
            let (mut ob2, _) = check_spec_once(prog, sid, &o2, verbose);
            if let Verdict::Unknown(u) = &ob2.verdict {
                ob2.verdict = Verdict::Unknown(format!("a callee of the specification is not called; {u}; {s}"));
            }
            return ob2;
        }
    }
    ob
}
fn check_spec_once(prog: &Rc<Program>, sid: usize, o: &SpecOpts, verbose: bool) -> (Ob, Vec<(String, usize, usize)>) {
    let f = &prog.fns[sid];
    let target = o.target.clone().unwrap_or_else(|| f.qual());
    let mut ob = Ob {
        key: format!("{}{}{}", target, f.trait_.as_ref().map(|t| format!(" ({t})")).unwrap_or_default(), o.feature.as_ref().map(|t| format!(" [{t}]")).unwrap_or_default()),
        rule: "value graph equals specification".into(),
        target: target.clone(),
        file: String::new(),
        line: 0,
        verdict: Verdict::Holds,
        analysed: vec![],
        detail: String::new(),
    };
    let tid = match find_target(prog, f, o) {
        Ok(t) => t,
        Err(e) => {
            ob.verdict = Verdict::Unknown(format!("anchor not found: {e}"));
            return (ob, vec![]);
        }
    };
    let g = &prog.fns[tid];
    ob.file = g.file.clone();
    ob.line = g.line;
    if g.sig.inputs.len() != f.sig.inputs.len() {
        ob.verdict = Verdict::Unknown("signature changed".into());
        return (ob, vec![]);
    }
    let mut opts = Opts { max_depth: 24, unroll: o.unroll, ..Default::default() };
    opts.opaque.extend(o.opaque.iter().cloned());
    opts.handles.extend(o.handles.iter().cloned());
    opts.effects.extend(o.effects.iter().cloned());
    let mut ev = Ev::new(prog.clone(), opts);
    ev.tm.keep_abs = o.keep_abs;
    let r1 = ev.run(tid);
    ob.analysed = ev.inlined.iter().map(|i| prog.fns[*i].qual()).collect();
    let their_fns: Vec<usize> = ev.inlined.iter().copied().chain([tid]).collect();
    let r2 = ev.run(sid);
    let (r1, r2) = (settle(&mut ev, r1), settle(&mut ev, r2));
    let our_fns: Vec<usize> = ev.inlined.iter().copied().filter(|i| !their_fns.contains(i)).chain([sid]).collect();
    // which effects occur at all (a method of the same name elsewhere is not one)
    let occurring = |w: T| {
        let mut v = BTreeSet::new();
        ev.tm.walk(w, &mut |_, n| {
            if let Node::App(f, _) = n {
                if let Some(x) = f.strip_prefix("eff:") {
                    v.insert(x.rsplit("::").next().unwrap().to_string());
                }
            }
        });
        v
    };
    let (e1, e2) = (occurring(r1.world), occurring(r2.world));
    let calls: Vec<(String, usize, usize)> = o
        .opaque
        .iter()
        .chain(&o.effects)
        .map(|n| {
            let one = std::slice::from_ref(n);
            let last = n.rsplit("::").next().unwrap();
            let gone = o.effects.contains(n) && e2.contains(last) && !e1.contains(last);
            (n.clone(), if gone { 0 } else { calls_of(prog, &their_fns, one) }, calls_of(prog, &our_fns, one))
        })
        .collect();
    if verbose {
        for (n, r) in [("impl", &r1), ("spec", &r2)] {
            eprintln!("-- {n}: ret {}", ev.tm.show(r.ret));
            for (m, t) in &r.muts {
                eprintln!("   {m} := {}", ev.tm.show(*t));
            }
            eprintln!("   world {}\n   panics {}", ev.tm.show(r.world), ev.tm.show(r.panics));
        }
    }
    if r2.dead {
        ob.verdict = if r1.dead { Verdict::Holds } else { Verdict::Unknown("specification never returns".into()) };
        return (ob, vec![]);
    }
    if r1.dead {
        ob.verdict = Verdict::Violated(format!("{target} never returns normally"));
        return (ob, vec![]);
    }
    let mut known = BTreeSet::new();
    for t in [r2.ret, r2.world, r2.panics].into_iter().chain(r2.muts.iter().map(|x| x.1)) {
        vocab(&ev, t, &mut known);
    }
    let mut theirs = BTreeSet::new();
    for t in [r1.ret, r1.world, r1.panics].into_iter().chain(r1.muts.iter().map(|x| x.1)) {
        vocab(&ev, t, &mut theirs);
    }
    for n in o.opaque.iter().chain(&o.effects) {
        theirs.insert(format!("fn:{n}"));
        theirs.insert(format!("fn:{}", n.rsplit("::").next().unwrap()));
        theirs.insert(format!("e:{n}"));
    }
    let side = |r: &Outcome| -> HashSet<T> {
        let mut s = HashSet::new();
        for t in [r.ret, r.world, r.panics].into_iter().chain(r.muts.iter().map(|x| x.1)) {
            ev.tm.walk(t, &mut |x, _| {
                s.insert(x);
            });
        }
        s
    };
    let (s1, s2) = (side(&r1), side(&r2));
    let mut common: HashSet<T> = s1.intersection(&s2).copied().collect();
    common.retain(|t| !ev.tm.has_opaque(*t));
    let bad = ev.tm.or(r1.panics, r2.panics);
    let mut inv = ev.tm.tt;
    for c in ev.assumed.clone() {
        inv = ev.tm.and(inv, c);
    }
    let good = ev.tm.not(bad);
    let good = ev.tm.and(inv, good);
    let mut pairs = vec![("result".to_string(), r1.ret, r2.ret)];
    for ((n, a), (_, b)) in r1.muts.iter().zip(&r2.muts) {
        pairs.push((format!("final {n}"), *a, *b));
    }
    pairs.push(("effects".into(), r1.world, r2.world));
    if o.no_panic {
        pairs.push(("panics".into(), r1.panics, r2.panics));
    }
    let mut d = Diff::Same;
    // an operation of a library may have been replaced by another one: only if no other is called
    let other_calls = {
        let (theirs, ours) = (called(prog, &their_fns), called(prog, &our_fns));
        theirs.iter().any(|x| !ours.contains(x) && !ev.prog.by_name.contains_key(x.as_str()))
    };
    let effects_exist = o.effects.iter().all(|n| {
        let last = n.rsplit("::").next().unwrap();
        !other_calls || ev.prog.by_name.get(last).map(|v| v.iter().any(|i| !ev.prog.fns[*i].in_test)).unwrap_or(false)
    });
    let mut df = Differ { ev: &mut ev, known, theirs: Some(theirs), effects_exist, budget: 3000, path_budget: 20000, path: vec![], ground: vec![], settled: false, common };
    for (n, a, b) in pairs {
        if o.skip.iter().any(|s| n.contains(s.as_str())) {
            continue;
        }
        let fact = if n == "panics" { inv } else { good };
        let (mut a, b) = (df.ev.restrict(a, fact), df.ev.restrict(b, fact));
        if o.unordered && n == "effects" {
            a = in_order_of(&mut df.ev.tm, a, b);
        }
        df.ground = if fact == df.ev.tm.tt { vec![] } else { vec![(fact, true)] };
        d = d.and(|| {
            let r = df.diff(a, b, &n);
            if let Diff::Definite(s) = &r {
                // only a conversion to a narrower integer is missing
                let (a2, b2) = (wide(df.ev, a, false), wide(df.ev, b, true));
                if (a2, b2) != (a, b) && matches!(df.diff(a2, b2, &n), Diff::Same) {
                    return Diff::Maybe(format!("up to the range of integers; {s}"));
                }
                return by_cases(&mut df, a, b, &n, r, 3);
            }
            if let (Diff::Maybe(_), "result", true) = (&r, n.as_str(), o.effects.is_empty() && o.handles.is_empty()) {
                if let Some(m) = ignored_input(df.ev, a, b) {
                    return Diff::Definite(format!("{n}: {m}"));
                }
            }
            if let Diff::Maybe(_) = &r {
                if let Some(m) = opposite_exit(df.ev, a, b) {
                    return Diff::Definite(format!("{n}: {m}"));
                }
            }
            if let (Diff::Maybe(_), "result") = (&r, n.as_str()) {
                if let Some(m) = discarded_result(df.ev, a, b, &r1) {
                    return Diff::Definite(format!("{n}: {m}"));
                }
            }
            r
        });
    }
    ob.verdict = match d {
        Diff::Same => Verdict::Holds,
        Diff::Definite(s) => Verdict::Violated(s),
        Diff::Maybe(s) => Verdict::Unknown(s),
    };
    ob.detail = format!("{} functions inlined, {} terms", ob.analysed.len(), ev.tm.nodes.len());
    (ob, calls)
}

/// the only unbounded loop of each side: left on opposite conditions
fn opposite_exit(ev: &mut Ev, a: T, b: T) -> Option<String> {
    use crate::term::Node;
    let exits = |t: T| {
        let mut v = BTreeSet::new();
        ev.tm.walk(t, &mut |_, n| {
            if let Node::App(f, x) = n {
                if f == "first" && x.len() == 2 && matches!(ev.tm.n(x[0]), Node::Path(p) if p == "inf") {
                    v.insert(x[1]);
                }
            }
        });
        v.into_iter().collect::<Vec<_>>()
    };
    let (x, y) = (exits(a), exits(b));
    let ([x], [y]) = (&x[..], &y[..]) else { return None };
    if let (Node::Lam(1, p), Node::Lam(1, q)) = (ev.tm.n(*x).clone(), ev.tm.n(*y).clone()) {
        if ev.tm.not(p) == q && !ev.tm.has_opaque(p) {
            return Some(format!("loop ends when {}, which must keep it going", clip(&ev.tm.show(p))));
        }
    }
    None
}
/// an operation that is still carried out, but whose outcome goes nowhere
fn discarded_result(ev: &mut Ev, a: T, b: T, r: &Outcome) -> Option<String> {
    use crate::term::Node;
    let outs: Vec<T> = [a, r.world].into_iter().chain(r.muts.iter().map(|x| x.1)).collect();
    if outs.iter().any(|t| ev.tm.has_opaque(*t)) || ev.tm.has_opaque(b) {
        return None;
    }
    let apps = |t: T, p: &str| {
        let mut v = BTreeSet::new();
        ev.tm.walk(t, &mut |_, n| {
            if let Node::App(f, _) = n {
                if let Some(e) = f.strip_prefix(p) {
                    v.insert(e.to_string());
                }
            }
        });
        v
    };
    let done = apps(r.world, "eff:");
    let mut used = BTreeSet::new();
    for t in &outs {
        used.extend(apps(*t, "res:"));
    }
    for e in apps(b, "res:") {
        if done.contains(&e) && !used.contains(&e) {
            return Some(format!("the outcome of {e} is discarded"));
        }
    }
    None
}
/// an input the specified result depends on and the computed result does not mention
fn ignored_input(ev: &mut Ev, a: T, b: T) -> Option<String> {
    use crate::term::Node;
    if ev.tm.has_opaque(a) || ev.tm.has_opaque(b) {
        return None;
    }
    // inputs are parameters, or fields of parameters
    let inputs = |t: T| {
        let mut v = BTreeSet::new();
        let mut whole = BTreeSet::new();
        let mut below = HashSet::new();
        ev.tm.walk(t, &mut |_, n| {
            if let Node::Field(p, f) = n {
                if let Node::Sym(s) = ev.tm.n(*p) {
                    v.insert((s.clone(), f.clone()));
                    below.insert(*p);
                }
            }
        });
        ev.tm.walk(t, &mut |x, n| {
            let kids = match n {
                Node::Field(..) => return,
                _ => ev.tm.children(n),
            };
            let _ = x;
            for (k, _) in kids {
                if let Node::Sym(s) = ev.tm.n(k) {
                    whole.insert(s.clone());
                }
            }
        });
        if let Node::Sym(s) = ev.tm.n(t) {
            whole.insert(s.clone());
        }
        (v, whole)
    };
    let ((fa, wa), (fb, wb)) = (inputs(a), inputs(b));
    let is_param = |s: &str| s == "self" || s.starts_with("arg");
    for s in &wb {
        if is_param(s) && !wa.contains(s) && !fa.iter().any(|x| &x.0 == s) {
            return Some(format!("does not depend on {s}, which the specified result depends on"));
        }
    }
    for (s, f) in &fb {
        if is_param(s) && !wa.contains(s) && !fa.contains(&(s.clone(), f.clone())) {
            return Some(format!("does not depend on {s}.{f}, which the specified result depends on"));
        }
    }
    None
}

/// effects whose order does not matter: those both sides have come in the order of the specification
fn in_order_of(tm: &mut crate::term::Terms, a: T, b: T) -> T {
    use crate::term::{Item, Node};
    let (Node::Seq(base, xs), Node::Seq(_, ys)) = (tm.n(a).clone(), tm.n(b).clone()) else { return a };
    if xs.len() != ys.len() {
        return a;
    }
    let mut left: Vec<Option<Item>> = xs.into_iter().map(Some).collect();
    let mut out: Vec<Option<Item>> = vec![];
    for y in &ys {
        let k = left.iter().position(|x| x.as_ref() == Some(y));
        out.push(k.and_then(|k| left[k].take()));
    }
    let mut rest = left.into_iter().flatten();
    let items: Vec<Item> = out.into_iter().map(|x| x.unwrap_or_else(|| rest.next().unwrap())).collect();
    tm.mk(Node::Seq(base, items))
}

/// a difference that may come from choosing inside or outside of a call: decide by the cases of a
/// condition that both sides choose by
fn by_cases(df: &mut Differ, a: T, b: T, ctx: &str, first: Diff, depth: u32) -> Diff {
    use crate::term::Node;
    let mut count: std::collections::BTreeMap<T, (usize, usize)> = Default::default();
    for (side, t) in [(0, a), (1, b)] {
        let mut cs = vec![];
        df.ev.tm.walk(t, &mut |_, n| {
            if let Node::Ite(c, ..) = n {
                cs.push(*c);
            }
        });
        for c in cs {
            if df.ev.tm.max_bv(c) == 0 && !matches!(df.ev.tm.n(c), Node::Ite(..)) {
                let e = count.entry(c).or_default();
                if side == 0 {
                    e.0 += 1
                } else {
                    e.1 += 1
                }
            }
        }
    }
    let Some((&c, _)) = count.iter().filter(|(_, n)| n.0 > 0 && n.1 > 0).max_by_key(|(_, n)| n.0 + n.1) else { return first };
    let mut d = Diff::Same;
    for v in [df.ev.tm.tt, df.ev.tm.ff] {
        let (x, y) = (df.ev.tm.subst(a, &[(c, v)]), df.ev.tm.subst(b, &[(c, v)]));
        let before = df.ground.len();
        df.ground.push((c, v == df.ev.tm.tt));
        let mut r = df.diff(x, y, ctx);
        if depth > 1 && matches!(r, Diff::Definite(_)) {
            r = by_cases(df, x, y, ctx, r, depth - 1);
        }
        df.ground.truncate(before);
        match r {
            Diff::Same => {}
            Diff::Definite(_) => return first,
            m => d = m,
        }
    }
    d
}
