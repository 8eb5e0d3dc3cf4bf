//! Places, paths, calls and macros.
use crate::eval::*;
use crate::expr::strip;
use crate::term::{Node, T};
use crate::val::*;
use std::rc::Rc;
use syn::parse::Parser;

impl Ev {
    pub fn deref_place(&mut self, st: &mut State, p: Place) -> Place {
        let mut p = p;
        for _ in 0..10 {
            match self.read(st, &p) {
                Val::Ref(q, _) => p = q,
                _ => break,
            }
        }
        p
    }
    pub fn place_ty(&mut self, st: &mut State, p: &Place) -> Ty {
        let v = self.read(st, p);
        self.val_ty(&v)
    }
    pub fn place(&mut self, st: &mut State, env: &Env, e: &syn::Expr) -> Option<(Place, Ty)> {
        match strip(e) {
            syn::Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => {
                let r = env.get(&p.path.segments[0].ident.to_string())?;
                match self.read_root(st, r) {
                    Val::Ref(p, t) => {
                        let q = self.deref_place(st, p);
                        let t2 = self.place_ty(st, &q);
                        Some((q, if t2 == Ty::Unk { t } else { t2 }))
                    }
                    Val::T(_, t) => Some((Place::root(r), t)),
                    Val::Tup(_) | Val::OptRef(..) => {
                        let v = self.read_root(st, r);
                        let t = self.val_ty(&v);
                        Some((Place::root(r), t))
                    }
                    _ => Some((Place::root(r), Ty::Unk)),
                }
            }
            syn::Expr::Field(f) => {
                let (p, ty) = self.place(st, env, &f.base)?;
                let n = member(&f.member);
                if n == "0" && self.is_quantity(&ty) {
                    return Some((p, ty));
                }
                let (p, ty) = self.auto_field(p, ty, &n);
                let q = p.f(&n);
                let fty = self.field_ty(&ty, &n);
                let fty = if fty == Ty::Unk { self.place_ty(st, &q) } else { fty };
                match self.read(st, &q) {
                    Val::Ref(r, t) => Some((r, t)),
                    _ => Some((q, fty)),
                }
            }
            syn::Expr::Index(i) => {
                if matches!(strip(&i.index), syn::Expr::Range(_)) {
                    return None;
                }
                let (p, ty) = self.place(st, env, &i.expr)?;
                let iv = self.expr(st, env, &i.index);
                self.index_place(st, p, ty, iv)
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                // dereferencing a place holding a reference, or a newtype
                if let Some((p, ty)) = self.place(st, env, &u.expr) {
                    let p = self.deref_place(st, p);
                    if let Ty::Named(n, _) = &ty {
                        if let Some(f) = self.deref_field(n) {
                            // only when the variable is not itself a reference
                            if let syn::Expr::Path(pp) = strip(&u.expr) {
                                if let Some(r) = env.get(&pp.path.segments[0].ident.to_string()) {
                                    if matches!(self.read_root(st, r), Val::Ref(..)) {
                                        return Some((p, ty));
                                    }
                                }
                            }
                            let fty = self.field_ty(&ty, &f);
                            return Some((p.f(&f), fty));
                        }
                    }
                    return Some((p, ty));
                }
                match self.expr(st, env, &u.expr) {
                    Val::Ref(p, t) => Some((self.deref_place(st, p), t)),
                    _ => None,
                }
            }
            syn::Expr::Reference(r) => self.place(st, env, &r.expr),
            syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Try(_) | syn::Expr::Block(_) | syn::Expr::If(_)
            | syn::Expr::Match(_) => {
                None
            }
            _ => None,
        }
    }
    /// follow Deref newtypes until the field exists
    fn auto_field(&mut self, mut p: Place, mut ty: Ty, n: &str) -> (Place, Ty) {
        for _ in 0..5 {
            if let Ty::Named(tn, _) = &ty {
                if self.struct_has_field(tn, n) == Some(false) {
                    if let Some(f) = self.deref_field(tn) {
                        let fty = self.field_ty(&ty, &f);
                        p = p.f(&f);
                        ty = fty;
                        continue;
                    }
                }
            }
            break;
        }
        (p, ty)
    }
    pub fn index_place(&mut self, st: &mut State, p: Place, ty: Ty, iv: Val) -> Option<(Place, Ty)> {
        let mut p = p;
        let mut ty = ty;
        for _ in 0..4 {
            if let Ty::Named(n, _) = &ty {
                if let Some(fid) = self.trait_method(&ty, "IndexMut", "index_mut") {
                    let it = self.val_ty(&iv);
                    let _ = it;
                    let v = self.call(st, fid, vec![Val::Ref(p.clone(), ty.clone()), iv.clone()], Some(ty.clone()));
                    return match v {
                        Val::Ref(q, t) => Some((q, t)),
                        _ => None,
                    };
                }
                if self.trait_method(&ty, "Index", "index").is_some() {
                    return None;
                }
                if let Some(f) = self.deref_field(n) {
                    let fty = self.field_ty(&ty, &f);
                    p = p.f(&f);
                    ty = fty;
                    continue;
                }
            }
            break;
        }
        let it = self.index_term(st, &iv);
        let q = p.i(it);
        let ety = match &ty {
            Ty::Named(n, a) if n == "HashMap" || n == "BTreeMap" => a.get(1).cloned().unwrap_or(Ty::Unk),
            _ => ty.elem(),
        };
        match self.read(st, &q) {
            Val::Ref(r, t) => Some((r, t)),
            _ => Some((q, ety)),
        }
    }
    /// index expressions: newtypes with Into<usize> are indexed by their content
    pub fn index_term(&mut self, st: &mut State, v: &Val) -> T {
        self.to_t(st, v)
    }
    pub fn place_or_value(&mut self, st: &mut State, env: &Env, e: &syn::Expr) -> Val {
        match strip(e) {
            syn::Expr::Field(f) => {
                let base = self.place_or_value(st, env, &f.base);
                let n = member(&f.member);
                if n == "0" {
                    let ty = self.val_ty(&base);
                    if self.is_quantity(&ty) {
                        return base;
                    }
                }
                self.field_of(st, base, &n)
            }
            syn::Expr::Index(i) => {
                let base = self.place_or_value(st, env, &i.expr);
                if let syn::Expr::Range(r) = strip(&i.index) {
                    let b = self.value(st, base);
                    let ty = self.val_ty(&b);
                    let a = self.to_t(st, &b);
                    let lo = match &r.start {
                        Some(x) => self.expr_t(st, env, x),
                        None => self.tm.zero,
                    };
                    let hi = match &r.end {
                        Some(x) => {
                            let h = self.expr_t(st, env, x);
                            if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                                let o = self.tm.one;
                                self.tm.add(h, o)
                            } else {
                                h
                            }
                        }
                        None => self.tm.len(a),
                    };
                    let s = self.slice(a, lo, hi);
                    return Val::T(s, ty);
                }
                let iv = self.expr(st, env, &i.index);
                let iv = self.value(st, iv);
                self.index_value(st, base, iv)
            }
            _ => self.expr(st, env, e),
        }
    }
    pub fn index_value(&mut self, st: &mut State, base: Val, iv: Val) -> Val {
        let b = self.value(st, base);
        let ty = self.val_ty(&b);
        if let Ty::Named(n, _) = &ty {
            if let Some(fid) = self.trait_method(&ty, "Index", "index") {
                return self.call(st, fid, vec![b, iv], Some(ty));
            }
            if let Some(f) = self.deref_field(n) {
                let nb = self.field_of(st, b, &f);
                return self.index_value(st, nb, iv);
            }
        }
        let a = self.to_t(st, &b);
        let it = self.index_term(st, &iv);
        let x = self.tm.index(a, it);
        let ety = match &ty {
            Ty::Named(n, a) if n == "HashMap" || n == "BTreeMap" => a.get(1).cloned().unwrap_or(Ty::Unk),
            _ => ty.elem(),
        };
        Val::T(x, ety)
    }
    pub fn field_of(&mut self, st: &mut State, base: Val, n: &str) -> Val {
        match &base {
            Val::Ref(p, ty) => {
                let ty = if *ty == Ty::Unk { self.place_ty(st, p) } else { ty.clone() };
                let (q, ty) = self.auto_field(p.clone(), ty, n);
                let v = self.read(st, &q.f(n));
                match v {
                    Val::T(t, Ty::Unk) => {
                        let fty = self.field_ty(&ty, n);
                        Val::T(t, fty)
                    }
                    x => x,
                }
            }
            Val::Tup(v) => match n.parse::<usize>().ok().and_then(|i| v.get(i).cloned()) {
                Some(x) => x,
                None => self.opaque("tuple field"),
            },
            _ => {
                let mut ty = self.val_ty(&base);
                let mut t = self.to_t(st, &base);
                for _ in 0..5 {
                    if let Ty::Named(tn, _) = &ty {
                        if self.struct_has_field(tn, n) == Some(false) {
                            if let Some(f) = self.deref_field(tn) {
                                let fty = self.field_ty(&ty, &f);
                                t = self.tm.field(t, &f);
                                ty = fty;
                                continue;
                            }
                        }
                    }
                    break;
                }
                let fty = if self.vec_dim(&ty).is_some() { Ty::Unk } else { self.field_ty(&ty, n) };
                let fty = if fty == Ty::Unk && ty.name().map(|n| n.starts_with("DVec")).unwrap_or(false) {
                    Ty::Float
                } else {
                    fty
                };
                Val::T(self.tm.field(t, n), fty)
            }
        }
    }
    pub fn assign_to(&mut self, st: &mut State, env: &Env, lhs: &syn::Expr, v: Val) {
        match strip(lhs) {
            syn::Expr::Tuple(t) => {
                for (k, x) in t.elems.iter().enumerate() {
                    let s = self.field_of(st, v.clone(), &k.to_string());
                    self.assign_to(st, env, x, s);
                }
                return;
            }
            syn::Expr::Infer(_) => return,
            // re-seating a local reference variable
            syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                if let Some(r) = env.get(&p.path.segments[0].ident.to_string()) {
                    if matches!(v, Val::T(..)) && matches!(self.read_root(st, r), Val::Ref(..)) {
                        // assignment to a reference variable itself
                        st.vars[r] = Some(v);
                        return;
                    }
                    let pl = Place::root(r);
                    if matches!(v, Val::It(_) | Val::Clo(_) | Val::Ref(..)) {
                        st.vars[r] = Some(v);
                        return;
                    }
                    self.write(st, &pl, v);
                    return;
                }
            }
            _ => {}
        }
        let target = match self.place(st, env, lhs) {
            Some(x) => Some(x),
            None => {
                // *f(..) = v, f(..).x = v, where f returns a mutable reference
                self.lvalue(st, env, lhs)
            }
        };
        match target {
            Some((p, _)) => {
                let v = self.value(st, v);
                self.write(st, &p, v)
            }
            None => {
                self.notes.push("assignment to an unsupported place".into());
                let o = self.opaque("assignment to an unsupported place");
                let t = self.to_t(st, &o);
                st.world = t;
            }
        }
    }
    /// lvalues rooted in a call that returns a mutable reference
    fn lvalue(&mut self, st: &mut State, env: &Env, e: &syn::Expr) -> Option<(Place, Ty)> {
        match strip(e) {
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.lvalue(st, env, &u.expr),
            syn::Expr::Field(f) => {
                let (p, ty) = self.lvalue(st, env, &f.base)?;
                let n = member(&f.member);
                if n == "0" && self.is_quantity(&ty) {
                    return Some((p, ty));
                }
                let (p, ty) = self.auto_field(p, ty, &n);
                let fty = self.field_ty(&ty, &n);
                Some((p.f(&n), fty))
            }
            syn::Expr::Index(i) => {
                let (p, ty) = self.lvalue(st, env, &i.expr)?;
                let iv = self.expr(st, env, &i.index);
                self.index_place(st, p, ty, iv)
            }
            syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Try(_) => match self.expr(st, env, e) {
                Val::Ref(p, t) => Some((self.deref_place(st, p), t)),
                _ => None,
            },
            _ => self.place(st, env, e),
        }
    }
    // ---------- ranges ----------
    pub fn range(&mut self, st: &mut State, env: &Env, e: &syn::Expr) -> Val {
        if let syn::Expr::Range(r) = e {
            let lo = match &r.start {
                Some(x) => {
                    let v = self.expr(st, env, x);
                    self.value(st, v)
                }
                None => Val::T(self.tm.zero, Ty::Int),
            };
            let ty = self.val_ty(&lo);
            let a = self.to_t(st, &lo);
            match &r.end {
                Some(x) => {
                    let hv = self.expr(st, env, x);
                    let hty = self.val_ty(&hv);
                    let h = self.to_t(st, &hv);
                    let mut n = self.tm.sub(h, a);
                    if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                        let o = self.tm.one;
                        n = self.tm.add(n, o);
                    }
                    let ty = if ty == Ty::Unk { hty } else { ty };
                    return Val::It(Box::new(It::Range(a, n, ty)));
                }
                None => return Val::It(Box::new(It::RangeFrom(a, ty))),
            }
        }
        self.opaque("range")
    }
    // ---------- paths ----------
    fn empty_env(&mut self, module: &[String], self_name: Option<String>) -> Env {
        Env {
            vars: Rc::new(EnvNode::Nil),
            ctx: Rc::new(Ctx {
                module: module.to_vec(),
                self_ty: match &self_name {
                    Some(n) => Ty::Named(n.clone(), vec![]),
                    None => Ty::Unk,
                },
                self_name,
                trait_: None,
                ret_ty: Ty::Unk,
                generics: Default::default(),
                fid: 0,
                consts: std::collections::HashMap::new(),
            }),
        }
    }
    /// type named by a path prefix
    fn type_seg(&mut self, env: &Env, n: &str) -> Ty {
        let ctx = env.ctx.clone();
        let id = syn::Ident::new(n, proc_macro2::Span::call_site());
        let p: syn::Path = id.into();
        let t = syn::Type::Path(syn::TypePath { qself: None, path: p });
        self.ty(&t, &ctx)
    }
    pub fn path_value(&mut self, st: &mut State, env: &Env, segs: &[String]) -> Val {
        if segs.len() == 1 {
            if let Some(r) = env.get(&segs[0]) {
                return self.read_root(st, r);
            }
            if let Some(n) = env.ctx.consts.get(&segs[0]) {
                return Val::T(*n, Ty::Int);
            }
        }
        if let Some(v) = self.variant_of(env, segs) {
            let prog = self.prog.clone();
            let is_unit = match v.split_once("::") {
                Some((e, n)) => prog
                    .enums
                    .iter()
                    .find(|x| x.name == e)
                    .and_then(|x| x.variants.iter().find(|y| y.0 == n))
                    .map(|x| x.1.is_empty())
                    .unwrap_or(true),
                None => v == "None",
            };
            if is_unit {
                let t = self.tm.mk_struct(&v, vec![]);
                let ty = match v.split_once("::") {
                    Some((e, _)) => Ty::Named(e.into(), vec![]),
                    None => Ty::Opt(Box::new(Ty::Unk)),
                };
                return Val::T(t, ty);
            }
            return Val::Fn(segs.to_vec(), env.ctx.clone());
        }
        let last = segs.last().unwrap().clone();
        // constants
        if let Some(v) = self.const_value(st, env, segs) {
            return v;
        }
        if segs.len() >= 2 {
            let t = self.type_seg(env, &segs[segs.len() - 2]);
            match last.as_str() {
                "ZERO" => {
                    if let Some(k) = self.vec_dim(&t) {
                        let z = self.tm.zero;
                        let v = self.mk_vec(vec![z; k]);
                        return Val::T(v, t);
                    }
                    return Val::T(self.tm.zero, t);
                }
                "ONE" => {
                    if let Some(k) = self.vec_dim(&t) {
                        let z = self.tm.one;
                        let v = self.mk_vec(vec![z; k]);
                        return Val::T(v, t);
                    }
                    return Val::T(self.tm.one, t);
                }
                "MAX" | "MIN" | "EPSILON" | "INFINITY" | "NEG_INFINITY" | "NAN" | "MIN_POSITIVE" => {
                    let k = segs[segs.len() - 2].clone();
                    let p = self.tm.path(&format!("{k}::{last}"));
                    return Val::T(p, t);
                }
                "PI" | "TAU" | "FRAC_PI_2" => {
                    let p = self.tm.path("PI");
                    let (n, d) = match last.as_str() {
                        "TAU" => (2, 1),
                        "PI" => (1, 1),
                        _ => (1, 2),
                    };
                    let k = self.tm.num(crate::term::Rat::new(n.into(), d.into()));
                    let r = self.tm.mul(k, p);
                    return Val::T(r, Ty::Float);
                }
                _ => {}
            }
        }
        if last == "PI" {
            let p = self.tm.path("PI");
            return Val::T(p, Ty::Float);
        }
        // unit struct
        let ty = self.type_seg(env, &last);
        if let Ty::Named(n, _) = &ty {
            if let Some(s) = self.prog.structs.iter().find(|s| &s.name == n) {
                if s.fields.is_empty() {
                    let t = self.tm.mk_struct(&n.clone(), vec![]);
                    return Val::T(t, ty);
                }
            }
        }
        Val::Fn(segs.to_vec(), env.ctx.clone())
    }
    pub fn const_value(&mut self, st: &mut State, env: &Env, segs: &[String]) -> Option<Val> {
        let last = segs.last().unwrap();
        if !last.chars().next().map(|c| c.is_uppercase() || c == '_').unwrap_or(false) {
            return None;
        }
        let prog = self.prog.clone();
        let cands: Vec<_> = prog.consts.iter().filter(|c| &c.name == last && !c.in_test).collect();
        if cands.is_empty() {
            return None;
        }
        let pick = if segs.len() >= 2 {
            let t = self.type_seg(env, &segs[segs.len() - 2]);
            let tn = t.name().map(|s| s.to_string());
            let mut m: Vec<_> = cands.iter().filter(|c| c.self_name == tn && tn.is_some() && c.expr.is_some()).collect();
            if m.is_empty() {
                m = cands
                    .iter()
                    .filter(|c| c.self_name.is_none() && c.module.last() == Some(&segs[segs.len() - 2]))
                    .collect();
            }
            if m.is_empty() {
                let first = &segs[0];
                if first == "crate" || first == "super" || first == "self" {
                    m = cands.iter().filter(|c| c.self_name.is_none()).collect();
                }
            }
            m.first().copied().copied()
        } else {
            let free: Vec<_> = cands.iter().filter(|c| c.self_name.is_none()).collect();
            free.iter()
                .find(|c| c.module == env.ctx.module)
                .or_else(|| {
                    let u = prog.uses.get(&env.ctx.module).and_then(|u| u.get(last))?;
                    free.iter().find(|c| {
                        let tail: Vec<&String> = u.iter().rev().skip(1).take(1).collect();
                        c.module.last() == tail.first().copied()
                    })
                })
                .or_else(|| if free.len() == 1 { free.first() } else { None })
                .copied()
                .copied()
        }?;
        let e = pick.expr.clone()?;
        self.consts_read += 1;
        if let syn::Expr::Array(a) = strip(&e) {
            if a.elems.len() > self.opts.unroll.max(16) {
                let p = self.tm.path(&format!("const {}", pick.name));
                if let Some(m) = table_max(&quote::quote!(#a)) {
                    self.table_max.insert(format!("const {}", pick.name), m);
                }
                let cenv = self.empty_env(&pick.module, None);
                let ctx = cenv.ctx.clone();
                let ty = self.ty(&pick.ty, &ctx);
                return Some(Val::T(p, ty));
            }
        }
        let cenv = self.empty_env(&pick.module, pick.self_name.clone());
        let ctx = cenv.ctx.clone();
        let ty = self.ty(&pick.ty, &ctx);
        let key = format!("{}::{}", pick.module.join("::"), pick.name);
        if self.const_stack.contains(&key) {
            return None;
        }
        self.const_stack.push(key);
        let mut s2 = self.new_state();
        s2.vars = st.vars.clone();
        let v = self.expr_hint(&mut s2, &cenv, &e, &ty);
        self.const_stack.pop();
        let t = self.to_t(&mut s2, &v);
        Some(Val::T(t, ty))
    }
    // ---------- calls ----------
    pub fn call_expr(&mut self, st: &mut State, env: &Env, c: &syn::ExprCall, hint: &Ty) -> Val {
        if let syn::Expr::Path(p) = strip(&c.func) {
            let mut segs = path_segs(&p.path);
            if let Some(q) = &p.qself {
                let ctx = env.ctx.clone();
                let t = self.ty(&q.ty, &ctx);
                match t.name() {
                    Some(n) => segs = vec![n.to_string(), segs.last().unwrap().clone()],
                    None => segs = vec!["?".into(), segs.last().unwrap().clone()],
                }
            }
            if segs.len() == 1 {
                if let Some(r) = env.get(&segs[0]) {
                    let f = self.read_root(st, r);
                    let args = self.args(st, env, &c.args, &[]);
                    return self.apply(st, &f, args);
                }
            }
            let hints = self.arg_hints(env, &segs);
            let args = self.args(st, env, &c.args, &hints);
            if st.dead {
                return self.unit();
            }
            self.turbo = None;
            if p.qself.is_none() && p.path.segments.len() > 1 {
                let k = p.path.segments.len() - 2;
                if let syn::PathArguments::AngleBracketed(a) = &p.path.segments[k].arguments {
                    let ctx = env.ctx.clone();
                    let tys: Vec<Ty> = a
                        .args
                        .iter()
                        .filter_map(|x| match x {
                            syn::GenericArgument::Type(t) => Some(t.clone()),
                            _ => None,
                        })
                        .map(|t| self.ty(&t, &ctx))
                        .collect();
                    self.turbo = Some((segs.clone(), tys));
                }
            }
            return self.call_path(st, env, &segs, args, Some(hint));
        }
        let f = self.expr(st, env, &c.func);
        let args = self.args(st, env, &c.args, &[]);
        self.apply(st, &f, args)
    }
    fn arg_hints(&mut self, env: &Env, segs: &[String]) -> Vec<Ty> {
        if let Some((fid, sty)) = self.resolve_fn(env, segs) {
            let prog = self.prog.clone();
            let f = &prog.fns[fid];
            let ctx = self.fn_ctx(f, sty);
            return f
                .sig
                .inputs
                .iter()
                .map(|i| match i {
                    syn::FnArg::Typed(t) => self.ty(&t.ty, &ctx),
                    _ => Ty::Unk,
                })
                .collect();
        }
        vec![]
    }
    pub fn args(
        &mut self,
        st: &mut State,
        env: &Env,
        a: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>,
        hints: &[Ty],
    ) -> Vec<Val> {
        let mut out = vec![];
        for (k, x) in a.iter().enumerate() {
            let h = hints.get(k).cloned().unwrap_or(Ty::Unk);
            let v = self.expr_hint(st, env, x, &h);
            out.push(v);
        }
        out
    }
    /// repository function named by a path
    pub fn resolve_fn(&mut self, env: &Env, segs: &[String]) -> Option<(usize, Option<Ty>)> {
        let prog = self.prog.clone();
        let last = segs.last().unwrap();
        let cands: Vec<usize> = prog.by_name.get(last)?.iter().copied().filter(|i| !prog.fns[*i].in_test).collect();
        if cands.is_empty() {
            return None;
        }
        if segs.len() == 1 {
            let free: Vec<usize> = cands.iter().copied().filter(|i| prog.fns[*i].self_name.is_none() && !prog.fns[*i].is_trait_def).collect();
            if let Some(i) = free.iter().find(|i| prog.fns[**i].module == env.ctx.module) {
                return Some((*i, None));
            }
            if let Some(u) = prog.uses.get(&env.ctx.module).and_then(|u| u.get(last)) {
                let n = u.last().unwrap();
                let v: Vec<usize> = prog
                    .by_name
                    .get(n)?
                    .iter()
                    .copied()
                    .filter(|i| {
                        let f = &prog.fns[*i];
                        f.self_name.is_none() && !f.in_test && !f.is_trait_def
                    })
                    .collect();
                let par = u.iter().rev().nth(1);
                if let Some(i) = v.iter().find(|i| prog.fns[**i].module.last() == par) {
                    return Some((*i, None));
                }
                if v.len() == 1 {
                    return Some((v[0], None));
                }
                return None;
            }
            // parent module (glob import)
            let mut m = env.ctx.module.clone();
            while !m.is_empty() {
                m.pop();
                if let Some(i) = free.iter().find(|i| prog.fns[**i].module == m) {
                    return Some((*i, None));
                }
            }
            if free.len() == 1 {
                return Some((free[0], None));
            }
            return None;
        }
        let tn = segs[segs.len() - 2].clone();
        // generic parameter: unknown unless bound to a type
        let mut ty = if tn == "?" { Ty::Unk } else { self.type_seg(env, &tn) };
        if let (Some((s, a)), Ty::Named(n, b)) = (&self.turbo, &ty) {
            if s == segs && b.iter().all(|x| *x == Ty::Unk) {
                ty = Ty::Named(n.clone(), a.clone());
            }
        }
        if let Ty::Named(n, _) = &ty {
            if let Some(i) = self.method_of(n, &ty, last, false) {
                return Some((i, Some(ty)));
            }
            // a module?
            let v: Vec<usize> = cands
                .iter()
                .copied()
                .filter(|i| {
                    let f = &prog.fns[*i];
                    f.self_name.is_none() && !f.is_trait_def && f.module.last() == Some(&tn)
                })
                .collect();
            if !v.is_empty() {
                return Some((v[0], None));
            }
            // a trait
            if let Some(i) = cands.iter().find(|i| {
                let f = &prog.fns[**i];
                f.is_trait_def && f.trait_.as_deref() == Some(n.as_str()) && f.block.is_some()
            }) {
                return Some((*i, None));
            }
        }
        if matches!(segs[0].as_str(), "self" | "super" | "crate") {
            let free: Vec<usize> = cands.iter().copied().filter(|i| prog.fns[*i].self_name.is_none()).collect();
            if segs.len() == 2 {
                let mut m = env.ctx.module.clone();
                if segs[0] == "super" {
                    m.pop();
                }
                if segs[0] == "crate" {
                    m.clear();
                }
                if let Some(i) = free.iter().find(|i| prog.fns[**i].module == m) {
                    return Some((*i, None));
                }
            }
            if free.len() == 1 {
                return Some((free[0], None));
            }
        }
        None
    }
    /// is the impl block of this function about type n, looking through aliases and renamed imports?
    fn impl_is(&mut self, fid: usize, n: &str) -> bool {
        if self.prog.fns[fid].self_name.is_none() {
            return false;
        }
        if let Some(x) = self.impl_names.get(&fid) {
            return x == n;
        }
        let f = self.prog.fns[fid].clone();
        let ctx = self.fn_ctx(&f, None);
        let x = match &ctx.self_ty {
            Ty::Named(x, _) => x.clone(),
            _ => String::new(),
        };
        let r = x == n;
        self.impl_names.insert(fid, x);
        r
    }
    /// method of a repository type
    pub fn method_of(&mut self, n: &str, ty: &Ty, name: &str, need_self: bool) -> Option<usize> {
        let prog = self.prog.clone();
        let c = prog.by_name.get(name)?;
        let (n, quantity) = match n.strip_prefix("q_") {
            Some(r) => (r, true),
            None => (n, false),
        };
        // inherent methods of foreign vector and number types win over the repository's trait impls
        let glam = matches!(name, "max_element" | "min_element" | "normalize" | "distance" | "distance_squared" | "length" | "length_squared");
        if (crate::methods::std_name(name) || glam) && self.vec_dim(ty).is_some() {
            return None;
        }
        let clash = !quantity && matches!(ty, Ty::Named(..)) && prog.structs.iter().any(|s| s.name == n && s.module.first().map(|m| m != "units").unwrap_or(true));
        let mut v: Vec<usize> = c
            .iter()
            .copied()
            .filter(|i| {
                let f = &prog.fns[*i];
                if f.in_test || f.is_trait_def || (need_self && !f.has_self()) {
                    return false;
                }
                if f.self_name.as_deref() != Some(n) && !self.impl_is(*i, n) {
                    return false;
                }
                let in_units = f.module.first().map(|m| m == "units").unwrap_or(false);
                if quantity {
                    return in_units;
                }
                !(clash && in_units)
            })
            .collect();
        if v.len() > 1 {
            // spec types shadow nothing; pick by generic arguments
            let args = match ty {
                Ty::Named(_, a) => a.clone(),
                _ => vec![],
            };
            let w: Vec<usize> = v
                .iter()
                .copied()
                .filter(|i| {
                    let f = &prog.fns[*i];
                    let ctx = self.fn_ctx(f, None);
                    match &ctx.self_ty {
                        Ty::Named(_, b) => {
                            b.len() == args.len()
                                && b.iter().zip(&args).all(|(x, y)| *x == Ty::Unk || *y == Ty::Unk || x == y)
                        }
                        _ => true,
                    }
                })
                .collect();
            if !w.is_empty() {
                v = w;
            }
            // inherent before trait
            if v.len() > 1 {
                let w: Vec<usize> = v.iter().copied().filter(|i| prog.fns[*i].trait_.is_none()).collect();
                if w.len() == 1 {
                    v = w;
                }
            }
        }
        if v.len() == 1 {
            return Some(v[0]);
        }
        if v.len() > 1 {
            // same impl repeated for several features or argument types: ambiguous
            return None;
        }
        // trait default implemented by n
        let w: Vec<usize> = c
            .iter()
            .copied()
            .filter(|i| {
                let f = &prog.fns[*i];
                f.is_trait_def
                    && f.block.is_some()
                    && !f.in_test
                    && prog.impls.iter().any(|im| im.self_name == n && im.trait_ == f.trait_)
            })
            .collect();
        if w.len() == 1 {
            return Some(w[0]);
        }
        None
    }
    pub fn call_path(&mut self, st: &mut State, env: &Env, segs: &[String], args: Vec<Val>, hint: Option<&Ty>) -> Val {
        let last = segs.last().unwrap().clone();
        // constructors
        if let Some(v) = self.variant_of(env, segs) {
            if args.len() == 1 && v == "Some" {
                if let Val::Ref(p, t) = &args[0] {
                    return Val::OptRef(self.tm.tt, p.clone(), t.clone());
                }
                let ity = self.val_ty(&args[0]);
                if let Val::It(_) = &args[0] {
                    // iterators inside options are materialised
                }
                let t = self.to_t(st, &args[0]);
                let s = self.tm.some(t);
                return Val::T(s, Ty::Opt(Box::new(ity)));
            }
            let ity = args.first().map(|a| self.val_ty(a)).unwrap_or(Ty::Unk);
            let fs = args
                .iter()
                .enumerate()
                .map(|(i, a)| (i.to_string(), self.to_t(st, a)))
                .collect();
            let t = self.tm.mk_struct(&v, fs);
            let ty = match v.as_str() {
                "Ok" => Ty::Res(Box::new(ity), Box::new(Ty::Unk)),
                "Err" => match hint {
                    Some(h @ Ty::Res(..)) => h.clone(),
                    _ => Ty::Res(Box::new(Ty::Unk), Box::new(ity)),
                },
                _ => Ty::Named(v.split("::").next().unwrap().into(), vec![]),
            };
            return Val::T(t, ty);
        }
        // tuple structs
        let sty = if last.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
            self.type_seg(env, &last)
        } else {
            Ty::Unk
        };
        if let Ty::Named(n, _) = &sty {
            if let Some(s) = self.prog.structs.iter().find(|s| &s.name == n) {
                if s.fields.len() == args.len() && s.fields.iter().enumerate().all(|(i, f)| f.0 == i.to_string()) {
                    let fs = args
                        .iter()
                        .enumerate()
                        .map(|(i, a)| (i.to_string(), self.to_t(st, a)))
                        .collect();
                    let n = n.clone();
                    let t = self.struct_eta(&n, fs);
                    return Val::T(t, sty);
                }
            }
        }
        if self.opts.effects.contains(&last) || self.opts.effects.contains(&segs[segs.len().saturating_sub(2)..].join("::")) {
            return self.effect(st, &last, args, Ty::Unk);
        }
        if last == "from" && args.len() == 1 && segs.len() > 1 {
            let tn = segs[segs.len() - 2].clone();
            let aty = self.val_ty(&args[0]);
            let tn = match self.type_seg(env, &tn) {
                Ty::Named(n, _) => n,
                _ => tn,
            };
            if let Some(fid) = self.from_impl(&tn, &aty) {
                let args = self.pass_args(st, fid, args);
                return self.call(st, fid, args, None);
            }
        }
        // a method named through its trait
        if segs.len() >= 2 && !args.is_empty() {
            let tr = &segs[segs.len() - 2];
            let prog = self.prog.clone();
            let is_trait = prog.by_name.get(&last).map(|c| c.iter().any(|i| {
                let f = &prog.fns[*i];
                f.is_trait_def && f.trait_.as_deref() == Some(tr.as_str()) && f.has_self()
            })).unwrap_or(false);
            if is_trait && !prog.structs.iter().any(|s| &s.name == tr) {
                let mut a = args;
                let r = a.remove(0);
                let h = hint.cloned().unwrap_or(Ty::Unk);
                return self.method(st, env, r, &last, a, &h);
            }
        }
        if let Some((fid, t)) = self.resolve_fn(env, segs) {
            let args = self.pass_args(st, fid, args);
            return self.call(st, fid, args, t);
        }
        self.std_call(st, env, segs, args, hint)
    }
    /// arguments for by-value / shared parameters are read, mutable ones stay references
    pub fn pass_args(&mut self, st: &mut State, fid: usize, args: Vec<Val>) -> Vec<Val> {
        let prog = self.prog.clone();
        let f = &prog.fns[fid];
        let mut out = vec![];
        for (k, a) in args.into_iter().enumerate() {
            let is_mut = match f.sig.inputs.iter().nth(k) {
                Some(syn::FnArg::Receiver(r)) => r.reference.is_some() && r.mutability.is_some(),
                Some(syn::FnArg::Typed(t)) => mutable_type(&t.ty),
                None => false,
            };
            if is_mut {
                out.push(a);
            } else {
                out.push(self.value(st, a));
            }
        }
        out
    }
    // ---------- macros ----------
    pub fn macro_(&mut self, st: &mut State, env: &Env, m: &syn::Macro) -> Val {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let parse_args = |ts: proc_macro2::TokenStream| -> Option<Vec<syn::Expr>> {
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            p.parse2(ts).ok().map(|x| x.into_iter().collect())
        };
        match name.as_str() {
            "vec" => {
                if let Some(v) = parse_args(m.tokens.clone()) {
                    let mut ts = vec![];
                    let mut ety = Ty::Unk;
                    for x in &v {
                        let y = self.expr(st, env, x);
                        if ety == Ty::Unk {
                            ety = self.val_ty(&y);
                        }
                        ts.push(self.to_t(st, &y));
                    }
                    let t = self.tm.array(ts);
                    return Val::T(t, Ty::arr((ety)));
                }
                // vec![x; n]
                let w = format!("[{}]", m.tokens);
                if let Ok(e) = syn::parse_str::<syn::Expr>(&w) {
                    return self.expr(st, env, &e);
                }
                self.opaque("vec!")
            }
            "matches" => {
                let p = |input: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
                    let e: syn::Expr = input.parse()?;
                    input.parse::<syn::Token![,]>()?;
                    let pat = syn::Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(syn::Token![if]) {
                        input.parse::<syn::Token![if]>()?;
                        Some(input.parse()?)
                    } else {
                        None
                    };
                    let _ = input.parse::<Option<syn::Token![,]>>()?;
                    Ok((e, pat, g))
                };
                match p.parse2(m.tokens.clone()) {
                    Ok((e, pat, g)) => {
                        let v = self.expr(st, env, &e);
                        let mut c = self.pat_cond(st, env, &pat, &v);
                        if let Some(g) = g {
                            let mut env2 = env.clone();
                            self.bind_pat(st, &mut env2, &pat, v);
                            let gt = self.expr_t(st, &env2, &g);
                            c = self.tm.and(c, gt);
                        }
                        Val::T(c, Ty::Bool)
                    }
                    Err(_) => self.opaque("matches!"),
                }
            }
            // an invariant the specification relies on
            "assume" => {
                if let Some(v) = parse_args(m.tokens.clone()) {
                    if let Some(c) = v.first() {
                        let c = self.expr_t(st, env, c);
                        self.assumed.push(c);
                    }
                }
                self.unit()
            }
            "assert" | "debug_assert" => {
                if let Some(v) = parse_args(m.tokens.clone()) {
                    if let Some(c) = v.first() {
                        let c = self.expr_t(st, env, c);
                        self.assume(st, c);
                    }
                }
                self.unit()
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                if let Some(v) = parse_args(m.tokens.clone()) {
                    if v.len() >= 2 {
                        let a = self.expr(st, env, &v[0]);
                        let a = self.value(st, a);
                        let b = self.expr(st, env, &v[1]);
                        let b = self.value(st, b);
                        let c = self.binop(st, if name.ends_with("ne") { "!=" } else { "==" }, a, b);
                        let c = self.to_t(st, &c);
                        self.assume(st, c);
                    }
                }
                self.unit()
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                let stop = self.stop(st);
                if stop == self.tm.ff {
                    st.dead = true;
                } else {
                    let ns = self.tm.not(stop);
                    st.panics = self.tm.or(st.panics, ns);
                }
                self.unit()
            }
            "info" | "debug" | "warn" | "error" | "trace" | "println" | "print" | "eprintln" | "eprint" | "dbg"
            | "maindbg" | "mpidbg" | "barrierdbg" | "compile_error" | "vis" => self.unit(),
            "format" => {
                let mut ts = vec![];
                if let Some(v) = parse_args(m.tokens.clone()) {
                    for x in &v {
                        let y = match x {
                            syn::Expr::Assign(a) => (*a.right).clone(),
                            z => z.clone(),
                        };
                        let y = self.expr(st, env, &y);
                        let y = self.value(st, y);
                        ts.push(self.to_t(st, &y));
                    }
                    // inline captures {name}
                    if let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = v.first() {
                        for cap in captures(&s.value()) {
                            if let Some(r) = env.get(&cap) {
                                let y = self.read_root(st, r);
                                let y = self.value(st, y);
                                ts.push(self.to_t(st, &y));
                            }
                        }
                    }
                }
                let t = self.tm.app("format", ts);
                Val::T(t, Ty::Str)
            }
            "offset_of" => {
                // offset_of!(Type, field)
                let text: Vec<String> = m.tokens.clone().into_iter().map(|t| t.to_string()).collect();
                let comma = text.iter().rposition(|t| t == ",");
                match comma {
                    Some(c) if c + 2 == text.len() && !text[0].is_empty() => {
                        let ty = text[..c].iter().take_while(|t| *t != "<").filter(|t| *t != ":").last().cloned().unwrap_or_default();
                        let a = self.tm.str(&ty);
                        let b = self.tm.str(&text[c + 1]);
                        let r = self.tm.app("offsetof", vec![a, b]);
                        Val::T(r, Ty::Int)
                    }
                    _ => self.opaque("macro offset_of!"),
                }
            }
            _ => {
                let prog = self.prog.clone();
                if let Some(ts) = prog.expand(&name, m.tokens.clone()) {
                    let b: Result<syn::Block, _> = syn::parse2(quote::quote!({ #ts }));
                    if let Ok(b) = b {
                        return self.block(st, env, &b);
                    }
                }
                self.opaque(&format!("macro {name}!"))
            }
        }
    }
    /// continue only where c holds, panic elsewhere
    pub fn assume(&mut self, st: &mut State, c: T) {
        if c == self.tm.tt {
            return;
        }
        let stop = self.stop(st);
        let nc = self.tm.not(c);
        let ns = self.tm.not(stop);
        let p = self.tm.and(nc, ns);
        if p == self.tm.tt {
            st.dead = true;
            return;
        }
        st.panics = self.tm.or(st.panics, p);
    }
    /// a vector with a unit: the wrapper is transparent
    pub fn is_quantity(&self, ty: &Ty) -> bool {
        self.vec_dim(ty).is_some() && ty.name().map(|n| !self.prog.structs.iter().any(|s| s.name == n)).unwrap_or(true)
    }
    pub fn node(&self, t: T) -> &Node {
        self.tm.n(t)
    }
}
pub fn member(m: &syn::Member) -> String {
    match m {
        syn::Member::Named(i) => i.to_string(),
        syn::Member::Unnamed(i) => i.index.to_string(),
    }
}
pub fn mutable_type(t: &syn::Type) -> bool {
    match t {
        syn::Type::Reference(r) => r.mutability.is_some(),
        syn::Type::Path(p) => {
            let n = p.path.segments.last().unwrap().ident.to_string();
            matches!(n.as_str(), "ResMut" | "NonSendMut" | "EventWriter" | "Commands" | "Query" | "ParamSet")
        }
        syn::Type::Paren(p) => mutable_type(&p.elem),
        syn::Type::Group(p) => mutable_type(&p.elem),
        syn::Type::Tuple(t) => t.elems.iter().any(mutable_type),
        // impl FnMut etc. and generic parameters may carry references
        // (an iterator handed over by value is gone after the call)
        syn::Type::ImplTrait(t) => !t.bounds.iter().any(|b| match b {
            syn::TypeParamBound::Trait(t) => t.path.segments.last().map(|s| s.ident.to_string().ends_with("Iterator")).unwrap_or(false),
            _ => false,
        }),
        _ => false,
    }
}
fn captures(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(i) = rest.find('{') {
        let r = &rest[i + 1..];
        if let Some(j) = r.find('}') {
            let name = r[..j].split(':').next().unwrap_or("").trim().to_string();
            if !name.is_empty() && name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.chars().next().unwrap().is_numeric() {
                out.push(name);
            }
            rest = &r[j + 1..];
        } else {
            break;
        }
    }
    out
}

/// largest entry of a table of integer literals
fn table_max(ts: &proc_macro2::TokenStream) -> Option<i64> {
    let mut best = 0;
    for t in ts.clone() {
        match t {
            proc_macro2::TokenTree::Group(g) => best = best.max(table_max(&g.stream())?),
            proc_macro2::TokenTree::Literal(l) => {
                let s: String = l.to_string().chars().filter(|c| *c != '_').collect();
                best = best.max(s.parse().ok()?);
            }
            proc_macro2::TokenTree::Punct(p) if p.as_char() == ',' => {}
            _ => return None,
        }
    }
    Some(best)
}
