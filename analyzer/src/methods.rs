//! Method calls: repository methods are inlined, standard ones are modelled,
//! the rest stays uninterpreted.
use crate::eval::*;
use crate::expr::strip;
use crate::term::{Item, Node, T};
use crate::val::*;

pub const MUTATORS: &[&str] = &["gen_range", "gen", "gen_bool", 
    "push", "insert", "remove", "pop", "clear", "extend", "append", "truncate", "resize", "retain", "sort", "sort_by",
    "sort_by_key", "sort_unstable", "sort_unstable_by_key", "sort_unstable_by", "dedup", "push_back", "push_front", "pop_front", "pop_back", "swap", "take",
    "replace", "get_or_insert_with", "drain", "entry", "swap_remove", "reverse", "fill", "shuffle", "next", "rotate_left",
    "rotate_right", "append", "iter_mut", "get_mut", "split_off",
];

impl Ev {
    /// the first `n` elements
    pub fn prefix(&mut self, t: T, n: T) -> T {
        let e = self.tm.empty_seq();
        if n == self.tm.zero {
            return e;
        }
        let l = self.tm.len(t);
        if n == l {
            return t;
        }
        let t1 = self.tm.shift(t, 1);
        let bv = self.tm.mk(Node::BV(0));
        let el = self.tm.index(t1, bv);
        let tt = self.tm.tt;
        self.tm.seq_on(e, vec![Item::Gen(vec![n], tt, el)])
    }
    pub fn method_expr(&mut self, st: &mut State, env: &Env, m: &syn::ExprMethodCall, hint: &Ty) -> Val {
        let name = m.method.to_string();
        // receiver: a place if possible
        let recv = self.receiver(st, env, &m.receiver);
        if st.dead {
            return self.unit();
        }
        let turbofish: Option<Ty> = m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| match a {
            syn::GenericArgument::Type(t) => {
                let ctx = env.ctx.clone();
                Some(self.ty(t, &ctx))
            }
            _ => None,
        });
        let hint = turbofish.clone().unwrap_or_else(|| hint.clone());
        // resolve first to give hints to the arguments
        let rty = self.recv_ty(st, &recv);
        let target = self.resolve_method(&rty, &name, m.args.len());
        let hints = match &target {
            Some((fid, t, _)) => {
                let prog = self.prog.clone();
                let f = &prog.fns[*fid];
                let ctx = self.fn_ctx(f, Some(t.clone()));
                f.sig
                    .inputs
                    .iter()
                    .skip(1)
                    .map(|i| match i {
                        syn::FnArg::Typed(t) => self.ty(&t.ty, &ctx),
                        _ => Ty::Unk,
                    })
                    .collect()
            }
            None => vec![],
        };
        let mut args = self.args(st, env, &m.args, &hints);
        if st.dead {
            return self.unit();
        }
        // const exponents: x.powi::<2>()
        if matches!(name.as_str(), "powi" | "pow") && args.is_empty() {
            if let Some(syn::GenericArgument::Const(e)) = m.turbofish.as_ref().and_then(|t| t.args.first()) {
                let v = self.expr(st, env, e);
                args.push(v);
            }
        }
        self.method(st, env, recv, &name, args, &hint)
    }
    /// receiver value: Val::Ref for places, plain values otherwise
    fn receiver(&mut self, st: &mut State, env: &Env, e: &syn::Expr) -> Val {
        match strip(e) {
            syn::Expr::Path(_) | syn::Expr::Field(_) | syn::Expr::Index(_) => {
                if let Some((p, ty)) = self.place(st, env, e) {
                    match self.read(st, &p) {
                        v @ (Val::It(_) | Val::Clo(_) | Val::Fn(..)) => {
                            let _ = v;
                            return Val::Ref(p, Ty::Unk);
                        }
                        Val::OptRef(c, q, t) => return Val::OptRef(c, q, t),
                        _ => {}
                    }
                    return Val::Ref(p, ty);
                }
                self.expr(st, env, e)
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some((p, ty)) = self.place(st, env, e) {
                    return Val::Ref(p, ty);
                }
                self.expr(st, env, e)
            }
            _ => self.expr(st, env, e),
        }
    }
    fn recv_ty(&mut self, st: &mut State, v: &Val) -> Ty {
        match v {
            Val::Ref(p, t) => {
                if *t != Ty::Unk {
                    return t.clone();
                }
                self.place_ty(st, p)
            }
            _ => self.val_ty(v),
        }
    }
    /// repository method for a receiver type; the string list is the Deref path
    pub fn resolve_method(&mut self, ty: &Ty, name: &str, nargs: usize) -> Option<(usize, Ty, Vec<String>)> {
        let mut t = ty.clone();
        let mut path = vec![];
        for _ in 0..4 {
            if let Ty::Named(n, _) = &t {
                let n = n.clone();
                if let Some(i) = self.method_of(&n, &t, name, true) {
                    return Some((i, t, path));
                }
                if let Some(f) = self.deref_field(&n) {
                    let ft = self.field_ty(&t, &f);
                    path.push(f);
                    t = ft;
                    continue;
                }
            }
            break;
        }
        // repository traits implemented for primitive types
        if matches!(ty, Ty::Float | Ty::Int | Ty::Bool | Ty::Str) && !std_name(name) {
            let prog = self.prog.clone();
            let c: Vec<usize> = prog.by_name.get(name).cloned().unwrap_or_default();
            let mut hit = vec![];
            for i in c {
                let f = &prog.fns[i];
                if f.in_test || f.is_trait_def || !f.has_self() || f.self_ty.is_none() || f.sig.inputs.len() != nargs + 1 {
                    continue;
                }
                let ctx = self.fn_ctx(f, None);
                if ctx.self_ty == *ty {
                    hit.push(i);
                }
            }
            if hit.len() == 1 {
                return Some((hit[0], ty.clone(), vec![]));
            }
        }
        // blanket trait defaults / unknown types: unique by name
        if matches!(ty, Ty::Unk) || matches!(ty, Ty::Named(..)) {
            if !std_name(name) {
                let prog = self.prog.clone();
                if let Some(c) = prog.by_name.get(name) {
                    let v: Vec<usize> = c
                        .iter()
                        .copied()
                        .filter(|i| {
                            let f = &prog.fns[*i];
                            !f.in_test && f.has_self() && f.block.is_some() && f.sig.inputs.len() == nargs + 1
                        })
                        .collect();
                    if v.len() == 1 {
                        let f = &prog.fns[v[0]];
                        let ok = match ty {
                            Ty::Unk => true,
                            // a type from outside the repository or a generic trait default
                            Ty::Named(_, _) => f.is_trait_def,
                            _ => false,
                        };
                        if ok {
                            return Some((v[0], ty.clone(), vec![]));
                        }
                    }
                }
            }
        }
        None
    }
    pub fn method(&mut self, st: &mut State, env: &Env, recv: Val, name: &str, args: Vec<Val>, hint: &Ty) -> Val {
        let rty = self.recv_ty(st, &recv);
        // iterators
        match &recv {
            Val::It(it) => {
                let it = (**it).clone();
                return self.iter_method(st, env, it, None, name, args, hint);
            }
            Val::Ref(p, _) => {
                if let Val::It(it) = self.read(st, p) {
                    let p = p.clone();
                    return self.iter_method(st, env, *it, Some(p), name, args, hint);
                }
                if let c @ (Val::Clo(_) | Val::Fn(..)) = self.read(st, p) {
                    if name == "clone" {
                        return c;
                    }
                }
            }
            _ => {}
        }
        // effects
        let key = match rty.name() {
            Some(n) => format!("{n}::{name}"),
            None => name.to_string(),
        };
        let mut resolved = self.resolve_method(&rty, name, args.len());
        // the sign of a number, not of a Sign
        if rty == Ty::Unk && matches!(name, "is_negative" | "is_positive") {
            let v = self.value(st, recv.clone());
            let t = self.to_t(st, &v);
            if matches!(self.tm.n(t), Node::Poly(_) | Node::Sym(_)) {
                resolved = None;
            }
        }
        if !name.starts_with("assume_init") && (self.opts.effects.contains(name) || self.opts.effects.contains(&key)) {
            let rt = match &resolved {
                Some((fid, t, _)) => {
                    let prog = self.prog.clone();
                    let f = prog.fns[*fid].clone();
                    self.fn_ctx(&f, Some(t.clone())).ret_ty
                }
                None => Ty::Unk,
            };
            let rv = self.value(st, recv);
            let mut a = vec![rv];
            a.extend(args);
            let rt = if rt == Ty::Unk && name.starts_with("immediate_matched_probe") { Ty::Opt(Box::new(Ty::Unk)) } else { rt };
            return self.effect(st, name, a, rt);
        }
        if let Some((fid, t, path)) = resolved {
            let recv = self.project(st, recv, &path);
            let mut a = vec![recv];
            a.extend(args);
            // temporaries get a root so that &mut self works
            let prog = self.prog.clone();
            let f = &prog.fns[fid];
            if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
                if r.reference.is_some() && r.mutability.is_some() {
                    if let Val::T(..) = &a[0] {
                        let v = a[0].clone();
                        let root = self.alloc(st, v);
                        a[0] = Val::Ref(Place::root(root), t.clone());
                    }
                }
            }
            let a = self.pass_args(st, fid, a);
            return self.call(st, fid, a, Some(t));
        }
        // Deref newtypes forward standard methods
        let own = matches!(name, "cmp" | "partial_cmp" | "min" | "max" | "clamp") && self.derived_order(&rty) || matches!(name, "clone" | "into" | "borrow" | "as_ref");
        if let (Ty::Named(n, _), false) = (&rty, own) {
            if let Some(f) = self.deref_field(n) {
                let r2 = self.project(st, recv, &[f]);
                return self.method(st, env, r2, name, args, hint);
            }
        }
        if let Some(v) = self.std_method(st, env, &recv, &rty, name, &args, hint) {
            return v;
        }
        // only iterators have these
        if let (Val::T(t, Ty::Unk), "any" | "all", 1) = (&recv, name, args.len()) {
            let it = Val::It(Box::new(It::Elems(*t, Ty::Unk)));
            return self.method(st, env, it, name, args, hint);
        }
        // uninterpreted
        let is_mut = MUTATORS.contains(&name) || name.ends_with("_mut") || args.iter().any(|a| matches!(a, Val::Ref(..)));
        let mut a = vec![match (&recv, is_mut) {
            (Val::Ref(..), true) => recv.clone(),
            _ => self.value(st, recv.clone()),
        }];
        for x in args {
            let keep = matches!(x, Val::Ref(..)) && is_mut;
            a.push(if keep { x } else { self.value(st, x) });
        }
        self.notes.push(format!("uninterpreted method {name}"));
        let ts: Vec<T> = a
            .iter()
            .map(|x| match x {
                // a function by name is the function that calls it
                Val::Fn(..) if matches!(name, "map" | "for_each" | "filter" | "filter_map" | "flat_map" | "map_err" | "and_then") => {
                    let s = self.tm.fresh("lam");
                    let mut s2 = st.clone();
                    let r = self.apply(&mut s2, x, vec![Val::T(s, Ty::Unk)]);
                    let b = self.to_t(&mut s2, &r);
                    let b = self.tm.abstract_n(b, &[s]);
                    self.tm.mk(Node::Lam(1, b))
                }
                x => self.to_t(st, x),
            })
            .collect();
        let r = self.tm.app(&format!("m:{name}"), ts.clone());
        if is_mut {
            for (k, x) in a.iter().enumerate() {
                if let Val::Ref(p, t) = x {
                    let nv = self.tm.app(&format!("m:{name}!{k}"), ts.clone());
                    let (p, t) = (p.clone(), t.clone());
                    self.write(st, &p, Val::T(nv, t));
                }
            }
        }
        // hdf5 and file system calls that can fail
        let fallible = match (name, ts.len()) {
            ("attr" | "dataset" | "create" | "create_group" | "write_scalar" | "write_slice", _) => rty == Ty::Unk || matches!(&rty, Ty::Named(n, _) if matches!(n.as_str(), "File" | "Dataset" | "Group")),
            ("read_scalar", 1) => true,
            _ => false,
        };
        if fallible {
            return Val::T(r, Ty::Res(Box::new(Ty::Unk), Box::new(Ty::Unk)));
        }
        Val::T(r, Ty::Unk)
    }
    fn is_ordering(&self, t: T, ty: &Ty) -> bool {
        if matches!(ty, Ty::Named(n, _) if n == "Ordering") {
            return true;
        }
        match self.tm.n(t) {
            Node::Struct(n, _) => n.starts_with("Ordering::"),
            Node::Ite(_, a, b) => self.is_ordering(*a, ty) && self.is_ordering(*b, ty),
            _ => false,
        }
    }
    fn project(&mut self, st: &mut State, v: Val, path: &[String]) -> Val {
        let mut v = v;
        for f in path {
            v = match v {
                Val::Ref(p, t) => {
                    let ft = self.field_ty(&t, f);
                    Val::Ref(p.f(f), ft)
                }
                x => self.field_of(st, x, f),
            };
        }
        v
    }
    fn place_of(&mut self, st: &mut State, v: &Val) -> Option<(Place, Ty)> {
        match v {
            Val::Ref(p, t) => {
                let p = self.deref_place(st, p.clone());
                let t = if *t == Ty::Unk { self.place_ty(st, &p) } else { t.clone() };
                Some((p, t))
            }
            _ => None,
        }
    }
    // ---------- standard library ----------
    #[allow(clippy::too_many_arguments)]
    fn std_method(
        &mut self,
        st: &mut State,
        env: &Env,
        recv: &Val,
        rty: &Ty,
        name: &str,
        args: &[Val],
        hint: &Ty,
    ) -> Option<Val> {
        if name == "into" && matches!(rty, Ty::Opt(_)) && !matches!(hint, Ty::Unk | Ty::Opt(_)) {
            if let Some(fid) = self.from_types(hint, rty) {
                let rv = self.value(st, recv.clone());
                return Some(self.call(st, fid, vec![rv], Some(hint.clone())));
            }
        }
        if let Some(v) = self.opt_method(st, env, recv, rty, name, args) {
            return Some(v);
        }
        let rv = self.value(st, recv.clone());
        if let Val::Tup(x) = &rv {
            if name == "into" && !matches!(hint, Ty::Unk | Ty::Tuple(_)) {
                let ty = match rty {
                    Ty::Tuple(_) => rty.clone(),
                    _ => Ty::Tuple(x.iter().map(|v| self.val_ty(v)).collect()),
                };
                if let Some(fid) = self.from_types(hint, &ty) {
                    return Some(self.call(st, fid, vec![rv], Some(hint.clone())));
                }
            }
            if matches!(name, "clone" | "into" | "to_owned") {
                return Some(rv);
            }
        }
        let t = self.to_t(st, &rv);
        let a0 = |s: &mut Ev, st: &mut State| -> T {
            match args.first() {
                Some(a) => {
                    let v = s.value(st, a.clone());
                    s.to_t(st, &v)
                }
                None => s.tm.zero,
            }
        };
        let map = matches!(rty, Ty::Named(n, _) if n == "HashMap" || n == "BTreeMap" || n == "HashSet" || n == "BTreeSet" || n == "BiMap");
        let vecd = self.vec_dim_of(rty, t);
        let same = |t: T, ty: &Ty| Some(Val::T(t, ty.clone()));
        match name {
            "clone" | "to_owned" | "as_ref" | "as_slice" | "to_vec" | "borrow" | "cloned" | "copied" | "as_str" | "to_string"
            | "as_bytes" | "by_ref" | "unwrap_unchecked" | "deref" | "as_mut_slice" | "into_boxed_slice" | "to_path_buf" | "as_path"
            | "into_inner"
                if args.is_empty() && !matches!(rty, Ty::Opt(_)) =>
            {
                if name == "to_string" && *rty != Ty::Str {
                    let r = self.tm.app("m:to_string", vec![t]);
                    return Some(Val::T(r, Ty::Str));
                }
                return Some(rv);
            }
            "assume_init" | "assume_init_ref" | "assume_init_read" | "assume_init_mut" if args.is_empty() => {
                if self.opts.effects.contains("assume_init") {
                    self.effect(st, "assume_init", vec![rv.clone()], Ty::Unk);
                }
                let ty = match rty {
                    Ty::Named(n, a) if n == "MaybeUninit" => a.first().cloned().unwrap_or(Ty::Unk),
                    _ => Ty::Unk,
                };
                return same(t, &ty);
            }
            "value_unchecked" => return Some(rv),
            "value" if self.unit_ty(rty) => return Some(rv),
            "into" | "try_into" => {
                // repository From impls for the hinted type
                if !matches!(hint, Ty::Unk) && !matches!(rty, Ty::Unk) {
                    if let Some(fid) = self.from_types(hint, rty) {
                        return Some(self.call(st, fid, vec![rv], Some(hint.clone())));
                    }
                }
                if let Some(h) = hint.name() {
                    let h = h.to_string();
                    if let Some(fid) = self.from_impl(&h, rty) {
                        return Some(self.call(st, fid, vec![rv], Some(hint.clone())));
                    }
                }
                // unique Into / From by source type
                if let Some(n) = rty.name() {
                    let prog = self.prog.clone();
                    let v: Vec<usize> = prog
                        .by_name
                        .get("from")
                        .map(|c| {
                            c.iter()
                                .copied()
                                .filter(|i| {
                                    let f = &prog.fns[*i];
                                    f.trait_.as_deref() == Some("From")
                                        && !f.in_test
                                        && f.sig.inputs.len() == 1
                                        && matches!(&f.sig.inputs[0], syn::FnArg::Typed(t) if crate::load::type_name(&t.ty) == n)
                                })
                                .collect()
                        })
                        .unwrap_or_default();
                    if v.len() == 1 && *hint == Ty::Unk {
                        return Some(self.call(st, v[0], vec![rv], None));
                    }
                    if !v.is_empty() {
                        let w: Vec<usize> = v
                            .iter()
                            .copied()
                            .filter(|i| {
                                let f = prog.fns[*i].clone();
                                let c = self.fn_ctx(&f, None);
                                c.self_ty == *hint
                            })
                            .collect();
                        if w.len() == 1 {
                            return Some(self.call(st, w[0], vec![rv], None));
                        }
                    }
                }
                if name == "try_into" {
                    let ok = self.tm.mk_struct("Ok", vec![("0".into(), t)]);
                    return Some(Val::T(ok, Ty::Res(Box::new(hint.inner()), Box::new(Ty::Unk))));
                }
                return same(t, if *hint == Ty::Unk { rty } else { hint });
            }
            // numbers
            "min" | "max" if args.len() == 1 => {
                let b = a0(self, st);
                if let Some(k) = vecd {
                    let (x, y) = (self.comps(t, k), self.comps(b, k));
                    let c = x.into_iter().zip(y).map(|(p, q)| self.tm.app(name, vec![p, q])).collect();
                    let r = self.mk_vec(c);
                    return same(r, rty);
                }
                let ty = if *rty == Ty::Unk { self.val_ty(&args[0]) } else { rty.clone() };
                let r = self.min_or_max(name, &ty, t, b);
                return Some(Val::T(r, ty));
            }
            "clamp" if args.len() == 2 => {
                let lo = a0(self, st);
                let hv = self.value(st, args[1].clone());
                let hi = self.to_t(st, &hv);
                let r = self.tm.app("max", vec![t, lo]);
                let r = self.tm.app("min", vec![r, hi]);
                return same(r, rty);
            }
            "abs" if args.is_empty() => {
                if let Some(k) = vecd {
                    let r = self.vec_map(t, k, &mut |s, x| s.tm.app("abs", vec![x]));
                    return same(r, rty);
                }
                let r = self.tm.app("abs", vec![t]);
                return same(r, rty);
            }
            "abs_diff" => {
                let b = a0(self, st);
                let d = self.tm.sub(t, b);
                let r = self.tm.app("abs", vec![d]);
                return same(r, rty);
            }
            "neg" if args.is_empty() => {
                let r = self.tm.neg(t);
                return same(r, rty);
            }
            "add" | "sub" | "mul" | "div" | "rem" if args.len() == 1 => {
                let op = match name {
                    "add" => "+",
                    "sub" => "-",
                    "mul" => "*",
                    "div" => "/",
                    _ => "%",
                };
                let b = self.value(st, args[0].clone());
                return Some(self.binop(st, op, rv, b));
            }
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" if args.len() == 1 => {
                let op = match name {
                    "eq" => "==",
                    "ne" => "!=",
                    "lt" => "<",
                    "le" => "<=",
                    "gt" => ">",
                    _ => ">=",
                };
                let b = self.value(st, args[0].clone());
                return Some(self.binop(st, op, rv, b));
            }
            "and" | "or" if *rty == Ty::Bool => {}
            "powi" | "powf" | "pow" | "powd" if args.len() == 1 => {
                let e = a0(self, st);
                let r = self.tm.app("pow", vec![t, e]);
                return same(r, rty);
            }
            "squared" => {
                let r = self.tm.mul(t, t);
                return Some(Val::T(r, Ty::Unk));
            }
            "cubed" => {
                let r = self.tm.mul(t, t);
                let r = self.tm.mul(r, t);
                return Some(Val::T(r, Ty::Unk));
            }
            "sqrt" => {
                let h = crate::term::Rat::new(1.into(), 2.into());
                let r = self.tm.pow(t, &h);
                return same(r, rty);
            }
            "cbrt" => {
                let h = crate::term::Rat::new(1.into(), 3.into());
                let r = self.tm.pow(t, &h);
                return same(r, rty);
            }
            "recip" => {
                let o = self.tm.one;
                let r = self.tm.div(o, t);
                return same(r, rty);
            }
            "exp" | "ln" | "log2" | "log10" | "sin" | "cos" | "tan" | "floor" | "ceil" | "round" | "trunc" | "signum" | "is_nan"
            | "is_finite" | "is_infinite" | "asin" | "acos" | "atan" | "exp2" | "leading_zeros" | "trailing_zeros" | "count_ones"
                if args.is_empty() =>
            {
                let r = self.tm.app(name, vec![t]);
                let ty = if name.starts_with("is_") { Ty::Bool } else { rty.clone() };
                return same(r, &ty);
            }
            "sin_cos" if args.is_empty() => {
                let a = self.tm.app("sin", vec![t]);
                let b = self.tm.app("cos", vec![t]);
                let r = self.tm.tuple(vec![a, b]);
                return same(r, &Ty::Tuple(vec![rty.clone(), rty.clone()]));
            }
            "mul_add" if args.len() == 2 => {
                let x = self.to_t(st, &args[0]);
                let y = self.to_t(st, &args[1]);
                let r = self.tm.mul(t, x);
                let r = self.tm.add(r, y);
                return same(r, rty);
            }
            "is_negative" | "is_sign_negative" => {
                let z = self.tm.zero;
                let r = self.tm.lt(t, z);
                return same(r, &Ty::Bool);
            }
            "is_positive" | "is_sign_positive" => {
                let z = self.tm.zero;
                let r = self.tm.lt(z, t);
                return same(r, &Ty::Bool);
            }
            "is_zero" => {
                let z = self.tm.zero;
                let r = self.tm.eq(t, z);
                return same(r, &Ty::Bool);
            }
            "rem_euclid" | "div_euclid" | "div_ceil" | "atan2" | "log" | "hypot" | "div_floor" if args.len() == 1 => {
                let b = a0(self, st);
                if name == "rem_euclid" && *rty == Ty::Int {
                    let r = self.tm.app("rem", vec![t, b]);
                    return same(r, rty);
                }
                let n = if name == "div_ceil" { "ceil_div" } else { name };
                let r = self.tm.app(n, vec![t, b]);
                return same(r, rty);
            }
            "mul_add" if args.len() == 2 => {
                let b = a0(self, st);
                let c = self.value(st, args[1].clone());
                let c = self.to_t(st, &c);
                let m = self.tm.mul(t, b);
                let r = self.tm.add(m, c);
                return same(r, rty);
            }
            "saturating_sub" if args.len() == 1 => {
                let b = a0(self, st);
                let d = self.tm.sub(t, b);
                let z = self.tm.zero;
                let r = self.tm.app("max", vec![d, z]);
                return same(r, rty);
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "saturating_add" if args.len() == 1 => {
                let b = a0(self, st);
                let r = self.tm.app(name, vec![t, b]);
                return same(r, rty);
            }
            "checked_sub" if args.len() == 1 => {
                let b = a0(self, st);
                let c = self.tm.le(b, t);
                let d = self.tm.sub(t, b);
                let s = self.tm.some(d);
                let n = self.tm.none();
                let r = self.tm.ite(c, s, n);
                return Some(Val::T(r, Ty::Opt(Box::new(rty.clone()))));
            }
            "checked_add" | "checked_mul" if args.len() == 1 => {
                let b = a0(self, st);
                let d = if name == "checked_add" { self.tm.add(t, b) } else { self.tm.mul(t, b) };
                let s = self.tm.some(d);
                return Some(Val::T(s, Ty::Opt(Box::new(rty.clone()))));
            }
            "partial_cmp" | "cmp" | "total_cmp" if args.len() == 1 => {
                if let Some(fid) = self.trait_method(rty, "Ord", "cmp") {
                    if name == "cmp" {
                        return Some(self.call(st, fid, vec![rv, args[0].clone()], Some(rty.clone())));
                    }
                }
                if name == "partial_cmp" {
                    if let Some(fid) = self.trait_method(rty, "PartialOrd", "partial_cmp") {
                        return Some(self.call(st, fid, vec![rv, args[0].clone()], Some(rty.clone())));
                    }
                }
                let b = a0(self, st);
                let lt = if self.derived_order(rty) { self.struct_lt(rty, t, b) } else { self.tm.lt(t, b) };
                let eq = if self.derived_order(rty) {
                    let (p, q) = (self.struct_lt(rty, t, b), self.struct_lt(rty, b, t));
                    let o = self.tm.or(p, q);
                    self.tm.not(o)
                } else {
                    self.tm.eq(t, b)
                };
                let l = self.tm.mk_struct("Ordering::Less", vec![]);
                let e = self.tm.mk_struct("Ordering::Equal", vec![]);
                let g = self.tm.mk_struct("Ordering::Greater", vec![]);
                let x = self.tm.ite(eq, e, g);
                let x = self.tm.ite(lt, l, x);
                let oty = Ty::Named("Ordering".into(), vec![]);
                if name == "partial_cmp" {
                    let s = self.tm.some(x);
                    return Some(Val::T(s, Ty::Opt(Box::new(oty))));
                }
                return Some(Val::T(x, oty));
            }
            // vectors
            "x" | "y" | "z" if args.is_empty() => {
                let r = self.tm.field(t, name);
                return Some(Val::T(r, Ty::Unk));
            }
            "dot" if args.len() == 1 => {
                let b = a0(self, st);
                let tb = self.val_ty(&args[0]);
                if let Some(k) = vecd.or(self.vec_dim_of(&tb, b)) {
                    let r = self.dot(t, b, k);
                    return Some(Val::T(r, Ty::Unk));
                }
                let (x, y) = if t < b { (t, b) } else { (b, t) };
                let r = self.tm.app("m:dot", vec![x, y]);
                return Some(Val::T(r, Ty::Unk));
            }
            "cross" if args.len() == 1 => {
                let b = a0(self, st);
                let tb = self.val_ty(&args[0]);
                if vecd.or(self.vec_dim_of(&tb, b)) == Some(3) {
                    let (x, y) = (self.comps(t, 3), self.comps(b, 3));
                    let mut c = vec![];
                    for (i, j) in [(1, 2), (2, 0), (0, 1)] {
                        let p = self.tm.mul(x[i], y[j]);
                        let q = self.tm.mul(x[j], y[i]);
                        c.push(self.tm.sub(p, q));
                    }
                    let r = self.mk_vec(c);
                    return Some(Val::T(r, Ty::Named("DVec3".into(), vec![])));
                }
            }
            "length_squared" | "norm_squared" | "magnitude_squared" if args.is_empty() => {
                if let Some(k) = vecd {
                    let r = self.dot(t, t, k);
                    return Some(Val::T(r, Ty::Unk));
                }
                let r = self.tm.app("m:dot", vec![t, t]);
                return Some(Val::T(r, Ty::Unk));
            }
            "length" | "norm" | "magnitude" if args.is_empty() => {
                let r = match vecd {
                    Some(k) => self.dot(t, t, k),
                    None => self.tm.app("m:dot", vec![t, t]),
                };
                let h = crate::term::Rat::new(1.into(), 2.into());
                let r = self.tm.pow(r, &h);
                return Some(Val::T(r, Ty::Unk));
            }
            "distance" | "distance_squared" if args.len() == 1 => {
                let b = self.value(st, args[0].clone());
                let d = self.binop(st, "-", rv, b);
                let n = if name == "distance" { "length" } else { "length_squared" };
                return Some(self.method(st, env, d, n, vec![], hint));
            }
            "normalize" if args.is_empty() && vecd.is_some() => {
                let k = vecd.unwrap();
                let r = self.dot(t, t, k);
                let h = crate::term::Rat::new((-1).into(), 2.into());
                let inv = self.tm.pow(r, &h);
                let r = self.vec_map(t, k, &mut |s, x| s.tm.mul(x, inv));
                return same(r, rty);
            }
            "min_element" | "max_element" if vecd.is_some() => {
                let c = self.comps(t, vecd.unwrap());
                let r = self.tm.app(&name[..3], c);
                return Some(Val::T(r, Ty::Unk));
            }
            "to_array" if vecd.is_some() => {
                let c = self.comps(t, vecd.unwrap());
                let r = self.tm.array(c);
                return Some(Val::T(r, Ty::arr((Ty::Float))));
            }
            // collections
            "len" | "size" if args.is_empty() && (name == "len" || matches!(rty, Ty::Arr(..))) => {
                let r = if map {
                    let k = self.tm.app("keys", vec![t]);
                    self.tm.len(k)
                } else {
                    self.tm.len(t)
                };
                return same(r, &Ty::Int);
            }
            "count" if args.is_empty() => {
                let r = self.tm.len(t);
                return same(r, &Ty::Int);
            }
            "is_empty" if args.is_empty() => {
                let l = if map {
                    let k = self.tm.app("keys", vec![t]);
                    self.tm.len(k)
                } else {
                    self.tm.len(t)
                };
                let z = self.tm.zero;
                let r = self.tm.eq(l, z);
                return same(r, &Ty::Bool);
            }
            "iter" | "into_iter" | "par_iter" | "into_par_iter" if args.is_empty() => {
                let v = match (&rv, rty) {
                    (Val::T(t, Ty::Unk), ty) => Val::T(*t, ty.clone()),
                    _ => rv,
                };
                let v = if name == "into_iter" && matches!(recv, Val::Ref(..)) && matches!(v, Val::It(_)) { v } else { v };
                let it = self.into_iter(st, v);
                return Some(Val::It(Box::new(it)));
            }
            "iter_mut" if args.is_empty() => {
                let it = match self.place_of(st, recv) {
                    Some((p, t)) => self.into_iter(st, Val::Ref(p, t)),
                    None => self.into_iter(st, rv),
                };
                return Some(Val::It(Box::new(it)));
            }
            "keys" | "values" | "into_keys" | "into_values" if args.is_empty() && map => {
                let n = name.trim_start_matches("into_");
                let r = self.tm.app(n, vec![t]);
                let ty = match rty {
                    Ty::Named(_, a) => a.get(if n == "keys" { 0 } else { 1 }).cloned().unwrap_or(Ty::Unk),
                    _ => Ty::Unk,
                };
                return Some(Val::It(Box::new(It::Elems(r, ty))));
            }
            "values_mut" if args.is_empty() => {
                if let Some((p, t)) = self.place_of(st, recv) {
                    if let Ty::Named(_, a) = &t {
                        return Some(Val::It(Box::new(It::EntriesMut(
                            p,
                            a.first().cloned().unwrap_or(Ty::Unk),
                            a.get(1).cloned().unwrap_or(Ty::Unk),
                            true,
                        ))));
                    }
                }
            }
            "windows" | "array_windows" | "chunks" if args.len() == 1 => {
                let n = a0(self, st);
                let it = if name == "chunks" {
                    It::Chunks(t, n, rty.elem())
                } else {
                    It::Windows(t, n, rty.elem())
                };
                return Some(Val::It(Box::new(it)));
            }
            "drain" | "drain_all" => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let full = args.is_empty() || matches!(&args[0], Val::It(it) if matches!(**it, It::RangeFrom(z, _) if z == self.tm.zero));
                    if full {
                        if map {
                            let e = self.tm.app("entries", vec![t]);
                            let em = self.tm.mk(Node::App("emptymap".into(), vec![]));
                            self.write(st, &p, Val::T(em, ty.clone()));
                            return Some(Val::It(Box::new(It::Drain(e, ty.elem()))));
                        }
                        let e = self.tm.empty_seq();
                        self.write(st, &p, Val::T(e, ty.clone()));
                        return Some(Val::It(Box::new(It::Drain(t, ty.elem()))));
                    }
                    // from the front
                    if let (Val::It(it), Ty::Arr(..), false) = (&args[0], &ty, map) {
                        if let It::Range(lo, hi, ..) = **it {
                            if lo == self.tm.zero {
                                let l = self.tm.len(t);
                                let out = self.slice(t, lo, hi);
                                let rest = self.slice(t, hi, l);
                                self.write(st, &p, Val::T(rest, ty.clone()));
                                return Some(Val::It(Box::new(It::Drain(out, ty.elem()))));
                            }
                        }
                    }
                }
            }
            "push" | "push_back" if args.len() == 1 && !map => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let x = a0(self, st);
                    let ety = self.val_ty(&args[0]);
                    let n = self.tm.push(t, x);
                    let ty = match ty {
                        Ty::Unk => Ty::arr((ety)),
                        Ty::Arr(e, _) if *e == Ty::Unk => Ty::arr((ety)),
                        x => x,
                    };
                    self.write(st, &p, Val::T(n, ty));
                    return Some(self.unit());
                }
            }
            "extend" | "append" | "extend_from_slice" if args.len() == 1 && !map => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    if matches!(ty, Ty::Arr(..) | Ty::Unk) {
                        let src = match (&args[0], name) {
                            (Val::Ref(q, qt), "append") => {
                                let v = self.read_deep(st, q);
                                let e = self.tm.empty_seq();
                                let (q, qt) = (q.clone(), qt.clone());
                                self.write(st, &q, Val::T(e, qt));
                                v
                            }
                            (x, _) => {
                                let x = x.clone();
                                match x {
                                    Val::Ref(..) => self.value(st, x),
                                    y => y,
                                }
                            }
                        };
                        let it = self.into_iter(st, src);
                        self.consume(st, &it, &mut |s, st, _, x| {
                            let x = s.value(st, x);
                            let x = s.to_t(st, &x);
                            let c = s.read_deep(st, &p);
                            let c = s.to_t(st, &c);
                            let n = s.tm.push(c, x);
                            s.write(st, &p, Val::T(n, ty.clone()));
                        });
                        return Some(self.unit());
                    }
                }
            }
            "extend" if args.len() == 1 && map => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let it = self.into_iter(st, args[0].clone());
                    self.consume(st, &it, &mut |s, st, _, x| {
                        let k = s.field_of(st, x.clone(), "0");
                        let v = s.field_of(st, x, "1");
                        let (k, v) = (s.to_t(st, &k), s.to_t(st, &v));
                        let c = s.read_deep(st, &p);
                        let c = s.to_t(st, &c);
                        let sv = s.tm.some(v);
                        let n = s.map_store(c, k, sv);
                        s.write(st, &p, Val::T(n, ty.clone()));
                    });
                    return Some(self.unit());
                }
            }
            "insert" if map => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let k = a0(self, st);
                    let v = match args.get(1) {
                        Some(v) => {
                            let v = self.value(st, v.clone());
                            self.to_t(st, &v)
                        }
                        None => self.tm.tt,
                    };
                    let old = self.map_get(t, k);
                    let sv = self.tm.some(v);
                    let n = self.map_store(t, k, sv);
                    self.write(st, &p, Val::T(n, ty.clone()));
                    if args.len() == 1 {
                        let r = self.tm.is(old, "None");
                        return Some(Val::T(r, Ty::Bool));
                    }
                    let vt = match &ty {
                        Ty::Named(_, a) => a.get(1).cloned().unwrap_or(Ty::Unk),
                        _ => Ty::Unk,
                    };
                    return Some(Val::T(old, Ty::Opt(Box::new(vt))));
                }
            }
            "remove" if map => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let k = a0(self, st);
                    let old = self.map_get(t, k);
                    let none = self.tm.none();
                    let n = self.map_store(t, k, none);
                    self.write(st, &p, Val::T(n, ty.clone()));
                    let vt = match &ty {
                        Ty::Named(_, a) => a.get(1).cloned().unwrap_or(Ty::Unk),
                        _ => Ty::Unk,
                    };
                    return Some(Val::T(old, Ty::Opt(Box::new(vt))));
                }
            }
            "get" if map && args.len() == 1 => {
                let k = a0(self, st);
                let o = self.map_get(t, k);
                let vt = match rty {
                    Ty::Named(_, a) => a.get(1).cloned().unwrap_or(Ty::Unk),
                    _ => Ty::Unk,
                };
                return Some(Val::T(o, Ty::Opt(Box::new(vt))));
            }
            "contains_key" | "contains" if map && args.len() == 1 => {
                let k = a0(self, st);
                let o = self.map_get(t, k);
                let r = self.tm.is(o, "Some");
                return same(r, &Ty::Bool);
            }
            "get_mut" if map && args.len() == 1 => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let k = a0(self, st);
                    let o = self.map_get(t, k);
                    let c = self.tm.is(o, "Some");
                    let vt = match &ty {
                        Ty::Named(_, a) => a.get(1).cloned().unwrap_or(Ty::Unk),
                        _ => Ty::Unk,
                    };
                    return Some(Val::OptRef(c, p.i(k).f("Some#0"), vt));
                }
            }
            "get" if args.len() == 1 && matches!(rty, Ty::Arr(..)) => {
                let k = a0(self, st);
                let l = self.tm.len(t);
                let c = self.tm.lt(k, l);
                let x = self.tm.index(t, k);
                let s = self.tm.some(x);
                let n = self.tm.none();
                let r = self.tm.ite(c, s, n);
                return Some(Val::T(r, Ty::Opt(Box::new(rty.elem()))));
            }
            "get_mut" if args.len() == 1 && matches!(rty, Ty::Arr(..)) => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let k = a0(self, st);
                    let l = self.tm.len(t);
                    let c = self.tm.lt(k, l);
                    return Some(Val::OptRef(c, p.i(k), ty.elem()));
                }
            }
            "first_mut" | "last_mut" if args.is_empty() && matches!(rty, Ty::Arr(..)) => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let l = self.tm.len(t);
                    let z = self.tm.zero;
                    let c = self.tm.lt(z, l);
                    let o = self.tm.one;
                    let k = if name == "first_mut" { z } else { self.tm.sub(l, o) };
                    return Some(Val::OptRef(c, p.i(k), ty.elem()));
                }
            }
            "first" | "last" if args.is_empty() => {
                let l = self.tm.len(t);
                let z = self.tm.zero;
                let c = self.tm.lt(z, l);
                let o = self.tm.one;
                let k = if name == "first" { z } else { self.tm.sub(l, o) };
                let x = self.tm.index(t, k);
                let s = self.tm.some(x);
                let n = self.tm.none();
                let r = self.tm.ite(c, s, n);
                return Some(Val::T(r, Ty::Opt(Box::new(rty.elem()))));
            }
            "clear" => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let e = if map {
                        self.tm.mk(Node::App("emptymap".into(), vec![]))
                    } else {
                        self.tm.empty_seq()
                    };
                    self.write(st, &p, Val::T(e, ty));
                    return Some(self.unit());
                }
            }
            "map" if args.len() == 1 && matches!(rty, Ty::Arr(..)) => {
                if let Node::Array(v) = self.tm.n(t).clone() {
                    let ety = rty.elem();
                    let mut out = vec![];
                    let mut ty = Ty::Unk;
                    for x in v {
                        let y = self.apply(st, &args[0], vec![Val::T(x, ety.clone())]);
                        ty = self.val_ty(&y);
                        out.push(self.to_t(st, &y));
                    }
                    let n = self.tm.array(out);
                    return same(n, &Ty::Arr(Box::new(ty), None));
                }
            }
            "remove" if args.len() == 1 && matches!(rty, Ty::Arr(..)) => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let k = a0(self, st);
                    let x = self.tm.index(t, k);
                    let rest = self.tm.app("m:remove!0", vec![t, k]);
                    self.write(st, &p, Val::T(rest, ty.clone()));
                    return Some(Val::T(x, ty.elem()));
                }
            }
            "reverse" if args.is_empty() && self.is_ordering(t, rty) => {
                let (l, e, g) = (self.tm.mk_struct("Ordering::Less", vec![]), self.tm.mk_struct("Ordering::Equal", vec![]), self.tm.mk_struct("Ordering::Greater", vec![]));
                let (cl, ce) = (self.tm.is(t, "Ordering::Less"), self.tm.is(t, "Ordering::Equal"));
                let r = self.tm.ite(ce, e, l);
                let r = self.tm.ite(cl, g, r);
                return same(r, &Ty::Named("Ordering".into(), vec![]));
            }
            "pop" if args.is_empty() && matches!(rty, Ty::Arr(..)) => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let l = self.tm.len(t);
                    let z = self.tm.zero;
                    let c = self.tm.lt(z, l);
                    let o = self.tm.one;
                    let k = self.tm.sub(l, o);
                    let x = self.tm.index(t, k);
                    let s = self.tm.some(x);
                    let n = self.tm.none();
                    let r = self.tm.ite(c, s, n);
                    let rest = match self.tm.n(t).clone() {
                        Node::Array(mut v) if !v.is_empty() => {
                            v.pop();
                            self.tm.array(v)
                        }
                        _ => {
                            let q = self.tm.app("init", vec![t]);
                            self.tm.ite(c, q, t)
                        }
                    };
                    self.write(st, &p, Val::T(rest, ty.clone()));
                    return Some(Val::T(r, Ty::Opt(Box::new(ty.elem()))));
                }
            }
            "contains" if args.len() == 1 => {
                let x = a0(self, st);
                let l = match self.tm.n(t) {
                    Node::Array(_) => self.tm.len(t),
                    _ => {
                        if *rty == Ty::Str {
                            let r = self.tm.app("m:contains", vec![t, x]);
                            return same(r, &Ty::Bool);
                        }
                        self.tm.len(t)
                    }
                };
                let x1 = self.tm.shift(x, 1);
                let t1 = self.tm.shift(t, 1);
                let bv = self.tm.mk(Node::BV(0));
                let el = self.tm.index(t1, bv);
                let e = self.tm.eq(el, x1);
                let r = self.tm.any(l, e);
                return same(r, &Ty::Bool);
            }
            "binary_search" if args.len() == 1 && matches!(rty, Ty::Arr(..)) => {
                let a = a0(self, st);
                let r = self.tm.app("m:binary_search", vec![t, a]);
                return same(r, &Ty::Res(Box::new(Ty::Int), Box::new(Ty::Int)));
            }
            "swap" if args.len() == 2 => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let a = a0(self, st);
                    let b = self.value(st, args[1].clone());
                    let b = self.to_t(st, &b);
                    let x = self.tm.index(t, a);
                    let y = self.tm.index(t, b);
                    let n = self.tm.store(t, a, y);
                    let n = self.tm.store(n, b, x);
                    self.write(st, &p, Val::T(n, ty));
                    return Some(self.unit());
                }
            }
            "resize" | "resize_with" if args.len() == 2 => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let n = a0(self, st);
                    let x = if name == "resize" { self.value(st, args[1].clone()) } else { self.apply(st, &args[1], vec![]) };
                    let x = self.to_t(st, &x);
                    let l = self.tm.len(t);
                    let more = self.tm.lt(l, n);
                    let d = self.tm.sub(n, l);
                    let x1 = self.tm.shift(x, 1);
                    let tt = self.tm.tt;
                    let grown = self.tm.seq_on(t, vec![Item::Gen(vec![d], tt, x1)]);
                    let cut = self.prefix(t, n);
                    let r = self.tm.ite(more, grown, cut);
                    self.write(st, &p, Val::T(r, ty));
                    return Some(self.unit());
                }
            }
            "truncate" if args.len() == 1 && matches!(rty, Ty::Arr(..)) => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let n = a0(self, st);
                    let l = self.tm.len(t);
                    let less = self.tm.lt(n, l);
                    let cut = self.prefix(t, n);
                    let r = self.tm.ite(less, cut, t);
                    self.write(st, &p, Val::T(r, ty));
                    return Some(self.unit());
                }
            }
            "insert" if args.len() == 2 && matches!(rty, Ty::Arr(..)) => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let i = a0(self, st);
                    let x = self.value(st, args[1].clone());
                    let x = self.to_t(st, &x);
                    let l = self.tm.len(t);
                    let r = if i == l {
                        self.tm.push(t, x)
                    } else {
                        let front = self.prefix(t, i);
                        let tt = self.tm.tt;
                        let rest = self.tm.sub(l, i);
                        let t1 = self.tm.shift(t, 1);
                        let i1 = self.tm.shift(i, 1);
                        let bv = self.tm.mk(Node::BV(0));
                        let k = self.tm.add(i1, bv);
                        let el = self.tm.index(t1, k);
                        self.tm.seq_on(front, vec![Item::One(tt, x), Item::Gen(vec![rest], tt, el)])
                    };
                    self.write(st, &p, Val::T(r, ty));
                    return Some(self.unit());
                }
            }
            "sort_by_key" | "sort_by" | "sort_unstable_by_key" | "sort" | "sort_unstable" | "sort_unstable_by" | "reverse" | "retain" | "dedup" => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let mut a = vec![t];
                    for x in args {
                        a.push(self.to_t(st, x));
                    }
                    if name == "retain" {
                        let it = It::Filter(Box::new(It::Elems(t, ty.elem())), Box::new(args[0].clone()));
                        let r = self.collect_seq(st, &it).0;
                        self.write(st, &p, Val::T(r, ty));
                        return Some(self.unit());
                    }
                    let n = name.replace("_unstable", "");
                    let r = self.tm.app(&format!("m:{n}"), a);
                    self.write(st, &p, Val::T(r, ty));
                    return Some(self.unit());
                }
            }
            "join" if *rty == Ty::Str || args.len() == 1 => {
                let b = a0(self, st);
                let r = self.tm.app("join", vec![t, b]);
                return same(r, rty);
            }
            "as_mut" | "as_mut_slice" | "deref_mut" | "borrow_mut" => {
                if !matches!(rty, Ty::Opt(_)) {
                    return Some(recv.clone());
                }
            }
            "then" | "then_some" if args.len() == 1 => {
                let v = if name == "then" { self.apply(st, &args[0], vec![]) } else { args[0].clone() };
                let ty = self.val_ty(&v);
                let x = self.to_t(st, &v);
                let s = self.tm.some(x);
                let n = self.tm.none();
                let r = self.tm.ite(t, s, n);
                return Some(Val::T(r, Ty::Opt(Box::new(ty))));
            }
            "entry" if map => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let k = a0(self, st);
                    let o = self.map_get(t, k);
                    let c = self.tm.is(o, "Some");
                    let vt = match &ty {
                        Ty::Named(_, a) => a.get(1).cloned().unwrap_or(Ty::Unk),
                        _ => Ty::Unk,
                    };
                    // an entry is the optional reference; or_insert fills it
                    return Some(Val::Tup(vec![Val::OptRef(c, p.i(k).f("Some#0"), vt), Val::T(k, Ty::Unk), Val::Ref(p, ty)]));
                }
            }
            _ => {}
        }
        if name.starts_with("in_") && args.is_empty() && self.unit_ty(rty) {
            let u = self.tm.path(&format!("unit:{}", &name[3..]));
            let r = self.tm.div(t, u);
            return Some(Val::T(r, Ty::Float));
        }
        None
    }
    pub fn unit_ty(&self, t: &Ty) -> bool {
        match t {
            Ty::Named(n, _) => !self.prog.structs.iter().any(|s| &s.name == n) && !self.prog.enums.iter().any(|s| &s.name == n),
            Ty::Unk => true,
            _ => false,
        }
    }
    pub fn map_get(&mut self, m: T, k: T) -> T {
        match self.tm.n(m) {
            Node::App(n, _) if n == "emptymap" => self.tm.none(),
            _ => self.tm.index(m, k),
        }
    }
    pub fn map_store(&mut self, m: T, k: T, v: T) -> T {
        self.tm.store(m, k, v)
    }
    pub fn from_impl(&mut self, target: &str, src: &Ty) -> Option<usize> {
        let prog = self.prog.clone();
        let c = prog.by_name.get("from")?;
        let v: Vec<usize> = c
            .iter()
            .copied()
            .filter(|i| {
                let f = &prog.fns[*i];
                f.trait_.as_deref() == Some("From") && f.self_name.as_deref() == Some(target) && !f.in_test
            })
            .collect();
        let single = v.len() == 1;
        v.into_iter().find(|i| {
            let f = prog.fns[*i].clone();
            let ctx = self.fn_ctx(&f, None);
            match &f.sig.inputs[0] {
                syn::FnArg::Typed(t) => {
                    let pt = self.ty(&t.ty, &ctx);
                    pt == *src || (pt.name().is_some() && pt.name() == src.name()) || (single && compatible(&pt, src))
                }
                _ => false,
            }
        })
    }
    /// implementation of From by target and source types, tuples and numbers included
    pub fn from_types(&mut self, target: &Ty, src: &Ty) -> Option<usize> {
        let prog = self.prog.clone();
        let c = prog.by_name.get("from")?;
        let v: Vec<usize> = c
            .iter()
            .copied()
            .filter(|i| {
                let f = prog.fns[*i].clone();
                if f.trait_.as_deref() != Some("From") || f.in_test || f.sig.inputs.len() != 1 {
                    return false;
                }
                let ctx = self.fn_ctx(&f, None);
                let same = match (&ctx.self_ty, target) {
                    (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
                    (a, b) => a == b,
                };
                same && matches!(&f.sig.inputs[0], syn::FnArg::Typed(t) if {
                    let pt = self.ty(&t.ty, &ctx);
                    pt == *src || (pt.name().is_some() && pt.name() == src.name())
                })
            })
            .collect();
        match v.as_slice() {
            [x] => Some(*x),
            _ => None,
        }
    }
    /// Option / Result combinators
    fn opt_method(&mut self, st: &mut State, env: &Env, recv: &Val, rty: &Ty, name: &str, args: &[Val]) -> Option<Val> {
        // entries
        if let Val::Tup(v) = recv {
            if v.len() == 3 && matches!(name, "or_insert" | "or_insert_with" | "or_default" | "or_insert_with_key") {
                if let (Val::OptRef(c, p, t), Val::Ref(_, _)) = (v[0].clone(), v[2].clone()) {
                    let d = match name {
                        "or_insert" => args[0].clone(),
                        "or_default" => {
                            let x = self.default_of(st, &t);
                            Val::T(x, t.clone())
                        }
                        _ => self.apply(st, &args[0], vec![]),
                    };
                    let d = self.to_t(st, &d);
                    let cur = self.read(st, &p);
                    let cur = self.to_t(st, &cur);
                    let n = self.tm.ite(c, cur, d);
                    let sv = self.tm.some(n);
                    let mut q = p.clone();
                    q.proj.pop();
                    self.write(st, &q, Val::T(sv, Ty::Unk));
                    return Some(Val::Ref(p, t));
                }
            }
        }
        let is_ref = matches!(recv, Val::OptRef(..));
        let cur = self.value(st, recv.clone());
        let is_ref = is_ref || matches!(cur, Val::OptRef(..));
        let recv_opt = if let Val::OptRef(..) = &cur { cur.clone() } else { recv.clone() };
        if is_ref {
            if let Val::OptRef(c, p, t) = &recv_opt {
                match name {
                    "unwrap" | "expect" => {
                        self.assume(st, *c);
                        return Some(Val::Ref(p.clone(), t.clone()));
                    }
                    "is_some" => return Some(Val::T(*c, Ty::Bool)),
                    "is_none" => return Some(Val::T(self.tm.not(*c), Ty::Bool)),
                    "map" => {
                        let (c, p, t) = (*c, p.clone(), t.clone());
                        let f = args[0].clone();
                        let mut out = None;
                        self.guarded(st, c, &mut |s, st| {
                            let r = s.apply(st, &f, vec![Val::Ref(p.clone(), t.clone())]);
                            out = Some(match r {
                                Val::Ref(..) => r,
                                x => {
                                    let ty = s.val_ty(&x);
                                    Val::T(s.to_t(st, &x), ty)
                                }
                            });
                        });
                        return Some(match out {
                            Some(Val::Ref(q, qt)) => Val::OptRef(c, q, qt),
                            Some(Val::T(x, ty)) => {
                                let s = self.tm.some(x);
                                let n = self.tm.none();
                                let r = self.tm.ite(c, s, n);
                                Val::T(r, Ty::Opt(Box::new(ty)))
                            }
                            _ => Val::T(self.tm.none(), Ty::Opt(Box::new(Ty::Unk))),
                        });
                    }
                    "as_mut" | "as_deref_mut" | "as_ref" => return Some(recv_opt.clone()),
                    _ => {}
                }
            }
        }
        let t = match &cur {
            Val::T(t, _) => *t,
            Val::OptRef(..) => self.to_t(st, &cur),
            _ => return None,
        };
        let optlike = matches!(rty, Ty::Opt(_)) || self.is_opt(t) || is_ref;
        let reslike = matches!(rty, Ty::Res(..)) || self.is_res(t);
        let unknown = *rty == Ty::Unk && !optlike && !reslike;
        let (yes, pay, no) = if reslike { ("Ok", "Ok", "Err") } else { ("Some", "Some", "None") };
        let ity = rty.inner();
        match name {
            "unwrap" | "expect" | "unwrap_unchecked" => {
                if unknown {
                    // e.g. locks or results of unknown calls
                    let r = self.tm.app("unwrap", vec![t]);
                    return Some(Val::T(r, Ty::Unk));
                }
                let c = self.tm.is(t, yes);
                self.assume(st, c);
                if let (true, Val::Ref(p, _)) = (optlike, recv) {
                    let _ = p;
                }
                let x = self.tm.payload(t, pay, "0");
                return Some(Val::T(x, ity));
            }
            "is_some" | "is_ok" | "is_none" | "is_err" => {
                let v = match name {
                    "is_some" => "Some",
                    "is_ok" => "Ok",
                    "is_none" => "None",
                    _ => "Err",
                };
                return Some(Val::T(self.tm.is(t, v), Ty::Bool));
            }
            _ => {}
        }
        if unknown && name == "unwrap_or_else" && args.len() == 1 {
            if let Val::Clo(k) = &args[0] {
                let a = k.params.iter().map(|_| self.opaque("error")).collect();
                let mut s2 = st.clone();
                self.apply(&mut s2, &args[0], a);
                if s2.dead || s2.panics == self.tm.tt {
                    let r = self.tm.app("unwrap", vec![t]);
                    return Some(Val::T(r, Ty::Unk));
                }
            }
        }
        if !optlike && !reslike {
            return None;
        }
        let c = self.tm.is(t, yes);
        let x = self.tm.payload(t, pay, "0");
        let xv = Val::T(x, ity.clone());
        match name {
            "as_mut" | "as_deref_mut" if optlike => {
                if let Some((p, _)) = self.place_of(st, recv) {
                    return Some(Val::OptRef(c, p.f("Some#0"), ity));
                }
                Some(cur)
            }
            "clone" | "cloned" | "copied" | "as_ref" | "as_deref" | "into" | "to_owned" => Some(cur),
            "take" if optlike => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let n = self.tm.none();
                    self.write(st, &p, Val::T(n, ty));
                }
                Some(cur)
            }
            "replace" | "insert" if optlike && args.len() == 1 => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let v = self.to_t(st, &args[0]);
                    let s = self.tm.some(v);
                    self.write(st, &p, Val::T(s, ty));
                    if name == "insert" {
                        return Some(Val::Ref(p.f("Some#0"), ity));
                    }
                }
                Some(cur)
            }
            "unwrap_or" => {
                let d = self.to_t(st, &args[0]);
                let r = self.tm.ite(c, x, d);
                Some(Val::T(r, ity))
            }
            "unwrap_or_default" => {
                let d = self.default_of(st, &ity);
                let r = self.tm.ite(c, x, d);
                Some(Val::T(r, ity))
            }
            "unwrap_or_else" => {
                let f = args[0].clone();
                let e = self.tm.payload(t, "Err", "0");
                let v = self.branch(st, c, &mut |_, _| xv.clone(), &mut |s, st| {
                    let a = if reslike { vec![Val::T(e, Ty::Unk)] } else { vec![] };
                    s.apply(st, &f, a)
                });
                Some(v)
            }
            "map_or" | "map_or_else" | "is_some_and" | "is_ok_and" | "is_none_or" => {
                let f = args.last().unwrap().clone();
                let d = args[0].clone();
                let v = self.branch(
                    st,
                    c,
                    &mut |s, st| s.apply(st, &f, vec![xv.clone()]),
                    &mut |s, st| match name {
                        "map_or" => d.clone(),
                        "map_or_else" => s.apply(st, &d, vec![]),
                        "is_none_or" => Val::T(s.tm.tt, Ty::Bool),
                        _ => Val::T(s.tm.ff, Ty::Bool),
                    },
                );
                Some(v)
            }
            "map" | "and_then" | "map_err" | "or_else" | "or" | "filter" | "ok_or" | "ok_or_else" | "ok" | "err" | "flatten" | "zip"
            | "and" | "xor" | "unwrap_or_exit" => {
                let no_t = if reslike {
                    let e = self.tm.payload(t, "Err", "0");
                    self.tm.mk_struct("Err", vec![("0".into(), e)])
                } else {
                    self.tm.none()
                };
                let err = self.tm.payload(t, "Err", "0");
                let f = args.first().cloned();
                let wrap = |s: &mut Ev, n: &str, v: T| s.tm.mk_struct(n, vec![("0".into(), v)]);
                let mut oty = Ty::Unk;
                let v = self.branch(
                    st,
                    c,
                    &mut |s, st| match name {
                        "map" => {
                            let r = s.apply(st, f.as_ref().unwrap(), vec![xv.clone()]);
                            let rt = s.val_ty(&r);
                            oty = if reslike { Ty::Res(Box::new(rt), Box::new(Ty::Unk)) } else { Ty::Opt(Box::new(rt)) };
                            let r = s.to_t(st, &r);
                            let w = wrap(s, yes, r);
                            Val::T(w, oty.clone())
                        }
                        "and_then" => {
                            let r = s.apply(st, f.as_ref().unwrap(), vec![xv.clone()]);
                            oty = s.val_ty(&r);
                            let r = s.to_t(st, &r);
                            Val::T(r, oty.clone())
                        }
                        "filter" => {
                            let r = s.apply(st, f.as_ref().unwrap(), vec![xv.clone()]);
                            let r = s.to_t(st, &r);
                            let n = s.tm.none();
                            oty = Ty::Opt(Box::new(ity.clone()));
                            Val::T(s.tm.ite(r, t, n), oty.clone())
                        }
                        "ok_or" | "ok_or_else" => {
                            oty = Ty::Res(Box::new(ity.clone()), Box::new(Ty::Unk));
                            let w = wrap(s, "Ok", x);
                            Val::T(w, oty.clone())
                        }
                        "ok" => {
                            oty = Ty::Opt(Box::new(ity.clone()));
                            let w = wrap(s, "Some", x);
                            Val::T(w, oty.clone())
                        }
                        "err" => Val::T(s.tm.none(), Ty::Opt(Box::new(Ty::Unk))),
                        "flatten" => {
                            oty = ity.clone();
                            Val::T(x, ity.clone())
                        }
                        "and" => f.clone().unwrap(),
                        "zip" => {
                            let o = s.to_t(st, f.as_ref().unwrap());
                            let c2 = s.tm.is(o, "Some");
                            let y = s.tm.payload(o, "Some", "0");
                            let p = s.tm.tuple(vec![x, y]);
                            let sm = s.tm.some(p);
                            let n = s.tm.none();
                            Val::T(s.tm.ite(c2, sm, n), Ty::Opt(Box::new(Ty::Unk)))
                        }
                        _ => {
                            oty = rty.clone();
                            Val::T(t, rty.clone())
                        }
                    },
                    &mut |s, st| match name {
                        "ok_or" => {
                            let e = s.to_t(st, f.as_ref().unwrap());
                            let w = wrap(s, "Err", e);
                            s.t(w)
                        }
                        "ok_or_else" => {
                            let e = s.apply(st, f.as_ref().unwrap(), vec![]);
                            let e = s.to_t(st, &e);
                            let w = wrap(s, "Err", e);
                            s.t(w)
                        }
                        "map_err" => {
                            let e = s.apply(st, f.as_ref().unwrap(), vec![Val::T(err, Ty::Unk)]);
                            let e = s.to_t(st, &e);
                            let w = wrap(s, "Err", e);
                            s.t(w)
                        }
                        "or_else" => {
                            let a = if reslike { vec![Val::T(err, Ty::Unk)] } else { vec![] };
                            s.apply(st, f.as_ref().unwrap(), a)
                        }
                        "or" => f.clone().unwrap(),
                        "ok" => Val::T(s.tm.none(), Ty::Unk),
                        "err" => {
                            let w = s.tm.some(err);
                            s.t(w)
                        }
                        _ => {
                            let _ = no;
                            s.t(no_t)
                        }
                    },
                );
                Some(match v {
                    Val::T(r, Ty::Unk) => Val::T(r, oty),
                    y => y,
                })
            }
            "iter" | "into_iter" if optlike => Some(Val::It(Box::new(It::Flatten(Box::new(It::Items(vec![cur])))))),
            "get_or_insert_with" if optlike => {
                if let Some((p, ty)) = self.place_of(st, recv) {
                    let f = args[0].clone();
                    let v = self.branch(st, c, &mut |_, _| xv.clone(), &mut |s, st| s.apply(st, &f, vec![]));
                    let v = self.to_t(st, &v);
                    let sv = self.tm.some(v);
                    self.write(st, &p, Val::T(sv, ty));
                    return Some(Val::Ref(p.f("Some#0"), ity));
                }
                None
            }
            "partial_cmp" | "cmp" | "eq" | "ne" => {
                let _ = env;
                None
            }
            _ => None,
        }
    }
    pub fn is_res(&self, t: T) -> bool {
        match self.tm.n(t) {
            Node::Struct(n, _) => n == "Ok" || n == "Err",
            Node::Ite(_, a, b) => self.is_res(*a) || self.is_res(*b),
            _ => false,
        }
    }
    pub fn default_of(&mut self, st: &mut State, t: &Ty) -> T {
        match t {
            Ty::Int | Ty::Float => self.tm.zero,
            Ty::Bool => self.tm.ff,
            Ty::Arr(..) => self.tm.empty_seq(),
            Ty::Str => self.tm.str(""),
            Ty::Opt(_) => self.tm.none(),
            Ty::Unit => self.tm.tuple(vec![]),
            Ty::Tuple(v) => {
                let ts = v.iter().map(|x| self.default_of(st, x)).collect();
                self.tm.tuple(ts)
            }
            Ty::Named(n, _) => {
                if n == "HashMap" || n == "BTreeMap" || n == "HashSet" || n == "BiMap" {
                    return self.tm.mk(Node::App("emptymap".into(), vec![]));
                }
                if let Some(fid) = self.trait_method(t, "Default", "default") {
                    let v = self.call(st, fid, vec![], Some(t.clone()));
                    return self.to_t(st, &v);
                }
                let prog = self.prog.clone();
                if let Some(s) = prog.structs.iter().find(|s| &s.name == n) {
                    if s.derives.iter().any(|d| d == "Default") {
                        let mut fs = vec![];
                        for (f, _) in &s.fields {
                            let ft = self.field_ty(t, f);
                            let x = self.default_of(st, &ft);
                            fs.push((f.clone(), x));
                        }
                        return self.tm.mk_struct(&s.name.clone(), fs);
                    }
                }
                if let Some(k) = self.vec_dim(t) {
                    let z = self.tm.zero;
                    return self.mk_vec(vec![z; k]);
                }
                let n = n.clone();
                self.tm.path(&format!("default {n}"))
            }
            _ => self.tm.path("default"),
        }
    }
}
pub fn std_name(n: &str) -> bool {
    matches!(
        n,
        "new" | "len" | "is_empty" | "iter" | "iter_mut" | "into_iter" | "push" | "insert" | "remove" | "get" | "get_mut" | "contains"
            | "clone" | "map" | "filter" | "max" | "min" | "abs" | "sum" | "next" | "fold" | "collect" | "take" | "unwrap" | "into"
            | "from" | "clear" | "extend" | "drain" | "pop" | "find" | "position" | "any" | "all" | "first" | "last" | "as_ref"
            | "enumerate" | "zip" | "cmp" | "partial_cmp" | "eq" | "add" | "sub" | "mul" | "div" | "index" | "index_mut" | "fmt"
            | "keys" | "values" | "entry" | "swap" | "count" | "sqrt" | "powi" | "x" | "y" | "z" | "dot" | "cross" | "clamp"
            | "contains_key" | "default" | "join" | "write" | "read" | "flush" | "send" | "recv" | "to_string" | "hash" | "build"
            | "finish" | "add_assign" | "size" | "value" | "chain" | "rev" | "run"
    )
}

/// could a value of type b be meant where a is declared?
fn compatible(a: &Ty, b: &Ty) -> bool {
    match (a, b) {
        (Ty::Unk, _) | (_, Ty::Unk) => true,
        (Ty::Named(x, _), Ty::Named(y, _)) => x == y,
        (Ty::Named(..), _) | (_, Ty::Named(..)) => true,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}
