//! Builds the value graph of a function: gated (if-then-else) values for all
//! paths at once, loops as folds, helper functions inlined.
use crate::load::{FnInfo, Program};
use crate::term::{Item, Node, Rat, Terms, T};
use crate::val::*;
use num_bigint::BigInt;
use num_traits::{One, Pow, Zero};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::str::FromStr;

#[derive(Clone, Default)]
pub struct Opts {
    /// functions (by name or Type::name) kept uninterpreted
    pub opaque: HashSet<String>,
    /// methods/functions that are observable effects
    pub effects: HashSet<String>,
    /// accessors returning a mutable reference
    pub handles: HashSet<String>,
    /// functions treated as pure even if unknown
    pub ignore: HashSet<String>,
    pub max_depth: usize,
    /// loops and tables up to this size are expanded (at least 16)
    pub unroll: usize,
}
pub struct Ev {
    pub tm: Terms,
    pub prog: Rc<Program>,
    pub opts: Opts,
    pub stack: Vec<usize>,
    pub nroots: usize,
    /// type arguments written in the path being called
    pub turbo: Option<(Vec<String>, Vec<Ty>)>,
    pub inlined: BTreeSet<usize>,
    pub notes: Vec<String>,
    pub steps: u64,
    pub alias_memo: HashMap<String, Ty>,
    pub impl_names: HashMap<usize, String>,
    pub consts_read: u32,
    /// invariants stated by the specification
    pub assumed: Vec<T>,
    /// variables standing for the target of an accessor
    pub handles: HashMap<usize, T>,
    pub table_max: std::collections::HashMap<String, i64>,
    /// expected result types of closures
    pub clo_hints: HashMap<usize, Ty>,
    pub const_stack: Vec<String>,
}

pub fn path_segs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}

impl Ev {
    pub fn new(prog: Rc<Program>, opts: Opts) -> Self {
        let mut tm = Terms::new();
        for e in &prog.enums {
            let vs: Vec<String> = e.variants.iter().map(|v| format!("{}::{}", e.name, v.0)).collect();
            for v in &vs {
                tm.var_enum.insert(v.clone(), e.name.clone());
            }
            tm.enums.insert(e.name.clone(), vs);
        }
        let ord: Vec<String> = ["Less", "Equal", "Greater"].iter().map(|v| format!("Ordering::{v}")).collect();
        for v in &ord {
            tm.var_enum.insert(v.clone(), "Ordering".into());
        }
        tm.enums.insert("Ordering".into(), ord);
        Ev {
            tm,
            prog,
            opts,
            stack: vec![],
            nroots: 0,
            inlined: BTreeSet::new(),
            notes: vec![],
            steps: 0,
            alias_memo: HashMap::new(),
            impl_names: HashMap::new(),
            consts_read: 0,
            assumed: vec![],
            handles: HashMap::new(),
            turbo: None,
            table_max: Default::default(),
            clo_hints: HashMap::new(),
            const_stack: vec![],
        }
    }
    // ---------------- types ----------------
    pub fn ty(&mut self, t: &syn::Type, ctx: &Ctx) -> Ty {
        match t {
            syn::Type::Reference(r) => self.ty(&r.elem, ctx),
            syn::Type::Paren(r) => self.ty(&r.elem, ctx),
            syn::Type::Group(r) => self.ty(&r.elem, ctx),
            syn::Type::Tuple(t) if t.elems.is_empty() => Ty::Unit,
            syn::Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|x| self.ty(x, ctx)).collect()),
            syn::Type::Array(a) => {
                let n = self.const_len(&a.len, ctx);
                Ty::Arr(Box::new(self.ty(&a.elem, ctx)), n)
            }
            syn::Type::Slice(a) => Ty::arr((self.ty(&a.elem, ctx))),
            syn::Type::Path(p) => {
                if let Some(q) = &p.qself {
                    let segs = path_segs(&p.path);
                    let base = self.ty(&q.ty, ctx);
                    let tr = if q.position > 0 { segs.get(q.position - 1).cloned() } else { None };
                    return self.assoc_ty(&base, tr.as_deref(), segs.last().unwrap()).unwrap_or(Ty::Unk);
                }
                let segs = path_segs(&p.path);
                let last = p.path.segments.last().unwrap();
                let name = last.ident.to_string();
                let args: Vec<Ty> = match &last.arguments {
                    syn::PathArguments::AngleBracketed(a) => a
                        .args
                        .iter()
                        .filter_map(|x| match x {
                            syn::GenericArgument::Type(t) => Some(self.ty(t, ctx)),
                            syn::GenericArgument::Const(e) => Some(match self.const_len(e, ctx) {
                                Some(n) => Ty::Len(n),
                                None => Ty::Unk,
                            }),
                            _ => None,
                        })
                        .collect(),
                    _ => vec![],
                };
                let all = args.clone();
                let args: Vec<Ty> = args.into_iter().filter(|t| !matches!(t, Ty::Len(_))).collect();
                if segs.len() == 1 {
                    if let Some(n) = ctx.consts.get(&name) {
                        return Ty::Len(*n);
                    }
                    if let Some(t) = ctx.generics.get(&name) {
                        return t.clone();
                    }
                }
                match name.as_str() {
                    "Self" => return ctx.self_ty.clone(),
                    "usize" | "u8" | "u16" | "u32" | "u64" | "u128" | "isize" | "i8" | "i16" | "i32"
                    | "i64" | "i128" | "Rank" | "Tag" | "SizedCommunicatorRank" => return Ty::Int,
                    "f32" | "f64" | "Float" => return Ty::Float,
                    "bool" => return Ty::Bool,
                    "String" | "str" => return Ty::Str,
                    "IntoIter" if segs.len() == 1 && self.prog.structs.iter().any(|s| s.name == "IntoIter" && s.module == ctx.module) => {}
                    "Vec" | "VecDeque" | "IntoIter" => {
                        return Ty::arr((args.first().cloned().unwrap_or(Ty::Unk)))
                    }
                    "Option" => return Ty::Opt(Box::new(args.first().cloned().unwrap_or(Ty::Unk))),
                    "Result" => {
                        return Ty::Res(
                            Box::new(args.first().cloned().unwrap_or(Ty::Unk)),
                            Box::new(args.get(1).cloned().unwrap_or(Ty::Unk)),
                        )
                    }
                    "Zip" if args.len() == 2 => {
                        let el = |t: &Ty| match t {
                            Ty::Named(n, a) if n == "Iter" => a.first().cloned().unwrap_or(Ty::Unk),
                            t => t.elem(),
                        };
                        return Ty::Named("Iter".into(), vec![Ty::Tuple(vec![el(&args[0]), el(&args[1])])]);
                    }
                    "Box" | "Rc" | "Arc" | "Res" | "ResMut" | "NonSend" | "NonSendMut" => {
                        return args.first().cloned().unwrap_or(Ty::Unk)
                    }
                    _ => {}
                }
                if segs.len() > 1 && segs[0] == "Self" {
                    let (base, tr) = (ctx.self_ty.clone(), ctx.trait_.clone());
                    if segs.len() != 2 {
                        return Ty::Unk;
                    }
                    if let Some(t) = self.assoc_ty(&base, tr.as_deref(), &segs[1]) {
                        return t;
                    }
                    let prog = self.prog.clone();
                    if let Some(b) = prog.assoc_bounds.iter().find(|b| Some(&b.0) == tr.as_ref() && b.1 == segs[1]) {
                        return self.iter_bound(b.2.iter(), ctx).unwrap_or(Ty::Unk);
                    }
                    return Ty::Unk;
                }
                if segs.len() == 2 {
                    if let Some(base) = ctx.generics.get(&segs[0]).cloned() {
                        return self.assoc_ty(&base, None, &segs[1]).unwrap_or(Ty::Unk);
                    }
                }
                // vectors, with and without units
                if !self.prog.structs.iter().any(|s| s.name == name) {
                    let three = self.prog.features.iter().any(|f| f == "3d");
                    let k = if three { 3 } else { 2 };
                    if segs.len() > 1 && (segs[segs.len() - 2] == "dvec2" || segs[segs.len() - 2] == "dvec3") {
                        return Ty::Named(format!("Vec{}{name}", &segs[segs.len() - 2][4..]), vec![]);
                    }
                    if name == "MVec" {
                        return Ty::Named(format!("MVec{k}"), vec![]);
                    }
                    if name.starts_with("Vec") && name.len() > 4 && self.vec_dim(&Ty::Named(name.clone(), vec![])).is_some() {
                        let c = name.as_bytes()[3];
                        let n = if c == b'2' || c == b'3' { name } else { format!("Vec{k}{}", &name[3..]) };
                        return Ty::Named(n, vec![]);
                    }
                }
                // quantities of the unit system that share a name with a component
                let via_units = if segs.len() > 1 {
                    segs[segs.len() - 2] == "units"
                } else {
                    let u = self.prog.uses.get(&ctx.module).and_then(|u| u.get(&name));
                    match u {
                        Some(p) => p.len() > 1 && (p[p.len() - 2] == "units" || p[p.len() - 2] == "super" && ctx.module.len() == 2 && ctx.module[0] == "units"),
                        None => ctx.module.first().map(|m| m == "units").unwrap_or(false),
                    }
                };
                if via_units && self.prog.structs.iter().any(|s| s.name == name && s.module.first().map(|m| m != "units").unwrap_or(true)) {
                    return Ty::Named(format!("q_{name}"), args);
                }
                if let Some(t) = self.alias(&name, &all, ctx) {
                    return t;
                }
                let name = self.prog.struct_name(&name, &ctx.module, Some(&segs));
                Ty::Named(name, args)
            }
            syn::Type::ImplTrait(i) => self.iter_bound(i.bounds.iter(), ctx).unwrap_or(Ty::Unk),
            _ => Ty::Unk,
        }
    }
    /// `Iterator<Item = X>` among trait bounds
    fn iter_bound<'a>(&mut self, bounds: impl Iterator<Item = &'a syn::TypeParamBound>, ctx: &Ctx) -> Option<Ty> {
        for b in bounds {
            if let syn::TypeParamBound::Trait(t) = b {
                let seg = t.path.segments.last().unwrap();
                if matches!(seg.ident.to_string().as_str(), "Iterator" | "IntoIterator" | "ExactSizeIterator" | "DoubleEndedIterator") {
                    let mut item = Ty::Unk;
                    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                        for x in &a.args {
                            if let syn::GenericArgument::AssocType(at) = x {
                                item = self.ty(&at.ty, ctx);
                            }
                        }
                    }
                    return Some(Ty::Named("Iter".into(), vec![item]));
                }
            }
        }
        None
    }
    /// the type `<base as trait_>::name`, if one implementation settles it
    fn assoc_ty(&mut self, base: &Ty, trait_: Option<&str>, name: &str) -> Option<Ty> {
        let Ty::Named(bn, bargs) = base else { return None };
        let prog = self.prog.clone();
        let mut found: Option<(&crate::load::ImplInfo, &syn::Type)> = None;
        for im in prog.impls.iter().filter(|i| !i.in_test) {
            let own = prog.struct_name(&im.self_name, &im.module, None);
            if own != *bn && im.self_name != *bn {
                continue;
            }
            if trait_.is_some() && im.trait_.as_deref() != trait_ {
                continue;
            }
            for (n, t) in &im.types {
                if n == name {
                    if let Some((_, o)) = found {
                        if quote::quote!(#o).to_string() != quote::quote!(#t).to_string() {
                            return None;
                        }
                    }
                    found = Some((im, t));
                }
            }
        }
        let (im, t) = found?;
        if !bargs.is_empty() {
            return None;
        }
        let cx = Ctx {
            module: im.module.clone(),
            self_ty: base.clone(),
            self_name: Some(bn.clone()),
            trait_: im.trait_.clone(),
            ret_ty: Ty::Unk,
            generics: HashMap::new(),
            fid: 0,
            consts: HashMap::new(),
        };
        Some(self.ty(t, &cx))
    }
    fn alias(&mut self, name: &str, args: &[Ty], ctx: &Ctx) -> Option<Ty> {
        // renamed imports
        let prog = self.prog.clone();
        if let Some(u) = prog.uses.get(&ctx.module) {
            if let Some(p) = u.get(name) {
                let last = p.last().unwrap();
                if last != name {
                    let n = last.clone();
                    return Some(
                        self.alias(&n, args, &Ctx {
                            module: vec![],
                            self_ty: Ty::Unk,
                            self_name: None,
                            trait_: None,
                            ret_ty: Ty::Unk,
                            generics: HashMap::new(),
                            fid: 0,
                            consts: HashMap::new(),
                        })
                        .unwrap_or(Ty::Named(n, args.to_vec())),
                    );
                }
            }
        }
        let cands: Vec<_> = prog.aliases.iter().filter(|a| a.0 == name).collect();
        if cands.is_empty() {
            return None;
        }
        if prog.structs.iter().any(|s| s.name == name) || prog.enums.iter().any(|s| s.name == name) {
            // a struct of the same name exists: the alias is meant only where it is defined or imported
            let import = prog.uses.get(&ctx.module).and_then(|u| u.get(name)).map(|p| {
                p[..p.len() - 1].iter().filter(|x| *x != "crate").cloned().collect::<Vec<_>>()
            });
            let here = cands.iter().any(|a| a.1 == ctx.module);
            let imported = import
                .map(|p| !p.is_empty() && cands.iter().any(|a| a.1.starts_with(&p)) && !prog.structs.iter().any(|s| s.name == name && s.module == p) && !prog.enums.iter().any(|s| s.name == name && s.module == p))
                .unwrap_or(false);
            if !here && !imported {
                return None;
            }
        }
        let c = cands
            .iter()
            .find(|a| a.1 == ctx.module)
            .or_else(|| cands.first())
            .unwrap();
        let mut g = HashMap::new();
        let mut consts = HashMap::new();
        for (i, n) in c.2.iter().enumerate() {
            match args.get(i) {
                Some(Ty::Len(n)) => {
                    consts.insert(c.2[i].clone(), *n);
                }
                _ => {
                    g.insert(n.clone(), args.get(i).cloned().unwrap_or(Ty::Unk));
                }
            }
        }
        // avoid self recursion
        if crate::load::type_name(&c.3) == name && !matches!(&c.3, syn::Type::Path(p) if p.qself.is_some()) {
            return None;
        }
        let cx = Ctx {
            module: c.1.clone(),
            self_ty: Ty::Unk,
            self_name: None,
            trait_: None,
            ret_ty: Ty::Unk,
            generics: g,
            fid: 0,
            consts,
        };
        Some(self.ty(&c.3, &cx))
    }
    /// length of an array type
    fn const_len(&mut self, e: &syn::Expr, ctx: &Ctx) -> Option<T> {
        match e {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => {
                let k: i64 = i.base10_parse().ok()?;
                Some(self.tm.int(k))
            }
            syn::Expr::Path(p) => {
                let segs = path_segs(&p.path);
                if segs.len() == 1 {
                    if let Some(n) = ctx.consts.get(&segs[0]) {
                        return Some(*n);
                    }
                }
                let mut st = self.new_state();
                let env = Env { vars: Rc::new(EnvNode::Nil), ctx: Rc::new(Ctx { module: ctx.module.clone(), self_ty: ctx.self_ty.clone(), self_name: ctx.self_name.clone(), trait_: ctx.trait_.clone(), ret_ty: Ty::Unk, generics: ctx.generics.clone(), fid: ctx.fid, consts: ctx.consts.clone() }) };
                match self.const_value(&mut st, &env, &segs) {
                    Some(Val::T(t, _)) => Some(t),
                    _ => None,
                }
            }
            syn::Expr::Block(b) => match b.block.stmts.as_slice() {
                [syn::Stmt::Expr(e, None)] => self.const_len(e, ctx),
                _ => None,
            },
            syn::Expr::Paren(p) => self.const_len(&p.expr, ctx),
            syn::Expr::Binary(b) => {
                let l = self.const_len(&b.left, ctx)?;
                let r = self.const_len(&b.right, ctx)?;
                match b.op {
                    syn::BinOp::Add(_) => Some(self.tm.add(l, r)),
                    syn::BinOp::Sub(_) => Some(self.tm.sub(l, r)),
                    syn::BinOp::Mul(_) => Some(self.tm.mul(l, r)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// instantiate generic parameters from the type of an argument
    fn unify(&mut self, t: &syn::Type, ty: &Ty, val: Option<T>, ctx: &mut Ctx) {
        match t {
            syn::Type::Reference(r) => self.unify(&r.elem, ty, val, ctx),
            syn::Type::Paren(r) => self.unify(&r.elem, ty, val, ctx),
            syn::Type::Group(r) => self.unify(&r.elem, ty, val, ctx),
            syn::Type::Slice(a) => {
                if let Ty::Arr(e, _) = ty {
                    self.unify(&a.elem, e, None, ctx)
                }
            }
            syn::Type::Tuple(ts) => {
                if let Ty::Tuple(v) = ty {
                    for (a, b) in ts.elems.iter().zip(v) {
                        self.unify(a, b, None, ctx);
                    }
                }
            }
            syn::Type::Array(a) => {
                let (e, n) = match ty {
                    Ty::Arr(e, n) => ((**e).clone(), *n),
                    _ => (Ty::Unk, None),
                };
                if let syn::Expr::Path(p) = &a.len {
                    if let Some(id) = p.path.get_ident() {
                        let id = id.to_string();
                        if ctx.consts.contains_key(&id) {
                            let n = match (n, val) {
                                (Some(n), _) => Some(n),
                                (None, Some(v)) => Some(self.tm.len(v)),
                                _ => None,
                            };
                            if let Some(n) = n {
                                ctx.consts.insert(id, n);
                            }
                        }
                    }
                }
                let z = self.tm.zero;
                let inner = match val {
                    Some(v) if matches!(&*a.elem, syn::Type::Array(_)) => Some(self.tm.index(v, z)),
                    _ => None,
                };
                self.unify(&a.elem, &e, inner, ctx)
            }
            syn::Type::Path(p) if p.qself.is_none() => {
                let last = p.path.segments.last().unwrap();
                let name = last.ident.to_string();
                if p.path.segments.len() == 1 && ctx.generics.get(&name) == Some(&Ty::Unk) {
                    if *ty != Ty::Unk {
                        ctx.generics.insert(name, ty.clone());
                    }
                    return;
                }
                let targs: Vec<syn::GenericArgument> = match &last.arguments {
                    syn::PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(),
                    _ => vec![],
                };
                if targs.is_empty() {
                    return;
                }
                // a local alias: unify with its definition
                let prog = self.prog.clone();
                if let Some(al) = prog.aliases.iter().find(|a| a.0 == name && a.1 == ctx.module) {
                    let mut body = al.3.clone();
                    for (g, a) in al.2.iter().zip(&targs) {
                        subst_type(&mut body, g, a);
                    }
                    self.unify(&body, ty, val, ctx);
                    return;
                }
                let inner: Vec<Ty> = match ty {
                    Ty::Named(_, a) => a.clone(),
                    Ty::Opt(a) => vec![(**a).clone()],
                    Ty::Res(a, b) => vec![(**a).clone(), (**b).clone()],
                    Ty::Arr(a, _) => vec![(**a).clone()],
                    _ => vec![],
                };
                let ts: Vec<&syn::Type> = targs
                    .iter()
                    .filter_map(|a| match a {
                        syn::GenericArgument::Type(t) => Some(t),
                        _ => None,
                    })
                    .collect();
                if name == "Iter" {
                    return;
                }
                for (a, b) in ts.iter().zip(&inner) {
                    self.unify(a, b, None, ctx);
                }
            }
            _ => {}
        }
    }
    pub fn field_ty(&mut self, t: &Ty, f: &str) -> Ty {
        match t {
            Ty::Tuple(v) => f
                .parse::<usize>()
                .ok()
                .and_then(|i| v.get(i).cloned())
                .unwrap_or(Ty::Unk),
            Ty::Named(n, args) => {
                let prog = self.prog.clone();
                if let Some(s) = prog.structs.iter().find(|s| &s.name == n) {
                    if let Some((_, ft)) = s.fields.iter().find(|x| x.0 == f) {
                        let mut g = HashMap::new();
                        for (i, p) in s.generics.iter().enumerate() {
                            g.insert(p.clone(), args.get(i).cloned().unwrap_or(Ty::Unk));
                        }
                        let cx = Ctx {
                            module: s.module.clone(),
                            self_ty: t.clone(),
                            self_name: Some(n.clone()),
                            trait_: None,
                            ret_ty: Ty::Unk,
                            generics: g,
                            fid: 0,
                            consts: HashMap::new(),
                        };
                        return self.ty(ft, &cx);
                    }
                }
                Ty::Unk
            }
            _ => Ty::Unk,
        }
    }
    /// does struct n (a newtype deriving Deref) forward to its single field?
    pub fn deref_field(&self, n: &str) -> Option<String> {
        let s = self.prog.structs.iter().find(|s| s.name == n)?;
        if s.derives.iter().any(|d| d == "Deref") && s.fields.len() == 1 {
            return Some(s.fields[0].0.clone());
        }
        // a written out `fn deref(&self) -> &Target { &self.field }`
        for &i in self.prog.by_name.get("deref")? {
            let f = &self.prog.fns[i];
            if f.in_test || f.trait_.as_deref() != Some("Deref") || f.self_name.as_deref() != Some(n) {
                continue;
            }
            if let Some([syn::Stmt::Expr(syn::Expr::Reference(r), None)]) = f.block.as_ref().map(|b| &b.stmts[..]) {
                if let syn::Expr::Field(fe) = &*r.expr {
                    if let (syn::Expr::Path(p), syn::Member::Named(m)) = (&*fe.base, &fe.member) {
                        if p.path.is_ident("self") && s.fields.iter().any(|x| m == &x.0) {
                            return Some(m.to_string());
                        }
                    }
                }
            }
        }
        None
    }
    pub fn struct_has_field(&self, n: &str, f: &str) -> Option<bool> {
        let s = self.prog.structs.iter().find(|s| s.name == n)?;
        Some(s.fields.iter().any(|x| x.0 == f))
    }
    // ---------------- state helpers ----------------
    pub fn new_state(&mut self) -> State {
        let w = self.tm.sym("world");
        State {
            vars: vec![],
            world: w,
            ret: self.tm.ff,
            retval: None,
            brk: self.tm.ff,
            base: self.tm.ff,
            cont: self.tm.ff,
            brkval: None,
            dead: false,
            panics: self.tm.ff,
        }
    }
    pub fn alloc(&mut self, st: &mut State, v: Val) -> usize {
        let r = self.nroots;
        self.nroots += 1;
        if st.vars.len() <= r {
            st.vars.resize(r + 1, None);
        }
        st.vars[r] = Some(v);
        r
    }
    pub fn stop(&mut self, st: &State) -> T {
        if st.dead {
            return self.tm.tt;
        }
        let a = self.tm.or(st.ret, st.brk);
        let a = self.tm.or(a, st.base);
        self.tm.or(a, st.cont)
    }
    pub fn t(&mut self, x: T) -> Val {
        Val::T(x, Ty::Unk)
    }
    pub fn unit(&mut self) -> Val {
        let u = self.tm.tuple(vec![]);
        Val::T(u, Ty::Unit)
    }
    pub fn opaque(&mut self, s: &str) -> Val {
        let t = self.tm.opaque(s);
        self.notes.push(format!("opaque: {s}"));
        Val::T(t, Ty::Unk)
    }
    pub fn val_ty(&mut self, v: &Val) -> Ty {
        match v {
            Val::T(_, t) | Val::Ref(_, t) => t.clone(),
            Val::OptRef(_, _, t) => Ty::Opt(Box::new(t.clone())),
            Val::Tup(v) => {
                let vs: Vec<Ty> = v.iter().map(|x| self.val_ty(x)).collect();
                Ty::Tuple(vs)
            }
            _ => Ty::Unk,
        }
    }
    pub fn read_root(&mut self, st: &mut State, r: usize) -> Val {
        match st.vars.get(r).cloned().flatten() {
            Some(v) => v,
            None => self.opaque("uninitialised variable"),
        }
    }
    pub fn read(&mut self, st: &mut State, p: &Place) -> Val {
        let mut v = self.read_root(st, p.root);
        for (k, pj) in p.proj.iter().enumerate() {
            match (&v, pj) {
                (Val::Ref(q, _), _) => {
                    let mut q = q.clone();
                    q.proj.extend(p.proj[k..].iter().cloned());
                    return self.read(st, &q);
                }
                (Val::Tup(xs), Pj::Field(f)) => {
                    if let Some(x) = f.parse::<usize>().ok().and_then(|i| xs.get(i).cloned()) {
                        v = x;
                        continue;
                    }
                    let t = self.to_t(st, &v);
                    v = Val::T(self.tm.field(t, f), Ty::Unk);
                }
                (Val::OptRef(_, q, _), Pj::Field(f)) if f == "Some#0" => {
                    let mut q = q.clone();
                    q.proj.extend(p.proj[k + 1..].iter().cloned());
                    return self.read(st, &q);
                }
                _ => {
                    let ty = self.val_ty(&v);
                    let t = self.to_t(st, &v);
                    match pj {
                        Pj::Field(f) => {
                            let x = self.tm.field(t, f);
                            let fty = match (&ty, f.as_str()) {
                                (Ty::Opt(i), "Some#0") => (**i).clone(),
                                (Ty::Res(i, _), "Ok#0") => (**i).clone(),
                                _ => self.field_ty(&ty, f),
                            };
                            v = Val::T(x, fty);
                        }
                        Pj::Index(i) => {
                            let x = self.tm.index(t, *i);
                            v = Val::T(x, ty.elem());
                        }
                    }
                }
            }
        }
        v
    }
    pub fn write(&mut self, st: &mut State, p: &Place, v: Val) {
        let stop = self.stop(st);
        if let Some(h) = self.handles.get(&p.root).copied() {
            let mut at = h;
            for j in &p.proj {
                at = match j {
                    Pj::Field(f) => self.tm.mk(Node::Field(at, f.clone())),
                    Pj::Index(i) => self.tm.mk(Node::Index(at, *i)),
                    #[allow(unreachable_patterns)]
                    _ => at,
                };
            }
            let x = self.to_t(st, &v);
            let e = self.tm.mk(Node::App("eff:write".into(), vec![at, x]));
            let w = self.tm.push(st.world, e);
            st.world = self.tm.ite(stop, st.world, w);
        }
        let v = if stop == self.tm.ff || st.dead {
            v
        } else {
            let old = self.read(st, p);
            self.merge_val(st, stop, &old, &v)
        };
        let root = self.read_root(st, p.root);
        if let Val::Ref(q, _) = &root {
            if !p.proj.is_empty() {
                let mut q = q.clone();
                q.proj.extend(p.proj.iter().cloned());
                self.write(st, &q, v);
                return;
            }
        }
        if p.proj.is_empty() {
            // keep a more precise type
            let nv = match (v, &root) {
                (Val::T(t, Ty::Unk), Val::T(_, ty)) => Val::T(t, ty.clone()),
                (x, _) => x,
            };
            st.vars[p.root] = Some(nv);
            return;
        }
        if let (Val::Tup(xs), Pj::Field(f)) = (&root, &p.proj[0]) {
            if let Ok(i) = f.parse::<usize>() {
                if i < xs.len() {
                    let mut xs = xs.clone();
                    if let (Val::Ref(q, _), true) = (&xs[i], p.proj.len() > 1) {
                        let mut q = q.clone();
                        q.proj.extend(p.proj[1..].iter().cloned());
                        self.write(st, &q, v);
                        return;
                    }
                    if p.proj.len() == 1 {
                        xs[i] = v;
                    } else {
                        let base = self.to_t(st, &xs[i]);
                        let vt = self.to_t(st, &v);
                        let ty = self.val_ty(&xs[i]);
                        let nt = self.write_t(base, &p.proj[1..], vt);
                        xs[i] = Val::T(nt, ty);
                    }
                    st.vars[p.root] = Some(Val::Tup(xs));
                    return;
                }
            }
        }
        if let Val::OptRef(_, q, _) = &root {
            if let Pj::Field(f) = &p.proj[0] {
                if f == "Some#0" {
                    let mut q = q.clone();
                    q.proj.extend(p.proj[1..].iter().cloned());
                    self.write(st, &q, v);
                    return;
                }
            }
        }
        let ty = self.val_ty(&root);
        let base = self.to_t(st, &root);
        let vt = self.to_t(st, &v);
        let nt = self.write_t(base, &p.proj, vt);
        st.vars[p.root] = Some(Val::T(nt, ty));
    }
    fn write_t(&mut self, base: T, pj: &[Pj], v: T) -> T {
        if pj.is_empty() {
            return v;
        }
        match &pj[0] {
            Pj::Field(f) => {
                let old = self.tm.field(base, f);
                let nv = self.write_t(old, &pj[1..], v);
                self.tm.with(base, f, nv)
            }
            Pj::Index(i) => {
                let old = self.tm.index(base, *i);
                let nv = self.write_t(old, &pj[1..], v);
                self.tm.store(base, *i, nv)
            }
        }
    }
    pub fn to_t(&mut self, st: &mut State, v: &Val) -> T {
        match v {
            Val::T(t, _) => *t,
            Val::Ref(p, _) => {
                let x = self.read(st, p);
                self.to_t(st, &x)
            }
            Val::OptRef(c, p, _) => {
                let x = self.read(st, p);
                let t = self.to_t(st, &x);
                let s = self.tm.some(t);
                let n = self.tm.none();
                self.tm.ite(*c, s, n)
            }
            Val::Tup(v) => {
                let ts = v.iter().map(|x| self.to_t(st, x)).collect();
                self.tm.tuple(ts)
            }
            Val::Clo(c) => {
                let n = c.params.len();
                let syms: Vec<T> = (0..n).map(|_| self.tm.fresh("lam")).collect();
                let args = syms.iter().map(|s| Val::T(*s, Ty::Unk)).collect();
                let mut s2 = st.clone();
                let r = self.apply(&mut s2, v, args);
                let b = self.to_t(&mut s2, &r);
                let b = self.tm.abstract_n(b, &syms);
                // eta
                self.tm.mk(Node::Lam(n as u32, b))
            }
            Val::It(it) => self.reify(st, it),
            Val::Fn(p, _) => {
                let s = p.join("::");
                self.tm.path(&format!("fn {s}"))
            }
        }
    }
    pub fn merge_val(&mut self, st: &mut State, c: T, a: &Val, b: &Val) -> Val {
        if c == self.tm.tt {
            return a.clone();
        }
        if c == self.tm.ff {
            return b.clone();
        }
        match (a, b) {
            (Val::Ref(p, t), Val::Ref(q, _)) if p == q => return Val::Ref(p.clone(), t.clone()),
            (Val::Tup(x), Val::Tup(y)) if x.len() == y.len() => {
                let v = x.iter().zip(y).map(|(p, q)| self.merge_val(st, c, p, q)).collect();
                return Val::Tup(v);
            }
            (Val::Clo(x), Val::Clo(y)) if Rc::ptr_eq(x, y) => return a.clone(),
            (Val::OptRef(c1, p, t), Val::OptRef(c2, q, _)) if p == q => {
                let cc = self.tm.ite(c, *c1, *c2);
                return Val::OptRef(cc, p.clone(), t.clone());
            }
            (Val::OptRef(c1, p, t), Val::T(n, _)) if *n == self.tm.none() => {
                let cc = self.tm.and(c, *c1);
                return Val::OptRef(cc, p.clone(), t.clone());
            }
            (Val::T(n, _), Val::OptRef(c1, p, t)) if *n == self.tm.none() => {
                let nc = self.tm.not(c);
                let cc = self.tm.and(nc, *c1);
                return Val::OptRef(cc, p.clone(), t.clone());
            }
            _ => {}
        }
        let ta = self.val_ty(a);
        let tb = self.val_ty(b);
        let x = self.to_t(st, a);
        let y = self.to_t(st, b);
        let r = self.tm.ite(c, x, y);
        Val::T(r, if ta == Ty::Unk { tb } else { ta })
    }
    /// state after a branch: s1 if c else s2
    pub fn merge(&mut self, c: T, s1: State, s2: State) -> State {
        if c == self.tm.tt {
            return s1;
        }
        if c == self.tm.ff {
            return s2;
        }
        if s1.dead && s2.dead {
            let mut s = s1;
            s.panics = self.tm.tt;
            return s;
        }
        if s1.dead {
            let mut s = s2;
            s.panics = self.tm.or(c, s.panics);
            return s;
        }
        if s2.dead {
            let mut s = s1;
            let nc = self.tm.not(c);
            s.panics = self.tm.or(nc, s.panics);
            return s;
        }
        let n = s1.vars.len().max(s2.vars.len());
        let mut out = s1.clone();
        out.vars.resize(n, None);
        let mut tmp1 = s1.clone();
        for i in 0..n {
            let a = s1.vars.get(i).cloned().flatten();
            let b = s2.vars.get(i).cloned().flatten();
            out.vars[i] = match (a, b) {
                (Some(a), Some(b)) => {
                    if let (Val::T(x, _), Val::T(y, _)) = (&a, &b) {
                        if x == y {
                            Some(a)
                        } else {
                            Some(self.merge_val(&mut tmp1, c, &a, &b))
                        }
                    } else {
                        match (&a, &b) {
                            (Val::It(_), _) | (Val::Fn(..), _) | (Val::Clo(_), _) => Some(a),
                            _ => Some(self.merge_val(&mut tmp1, c, &a, &b)),
                        }
                    }
                }
                (a, b) => a.or(b),
            };
        }
        out.world = self.tm.ite(c, s1.world, s2.world);
        out.ret = self.tm.ite(c, s1.ret, s2.ret);
        out.brk = self.tm.ite(c, s1.brk, s2.brk);
        out.cont = self.tm.ite(c, s1.cont, s2.cont);
        out.panics = self.tm.ite(c, s1.panics, s2.panics);
        out.retval = self.merge_flagged(&mut tmp1, c, s1.ret, &s1.retval, s2.ret, &s2.retval);
        out.brkval = self.merge_flagged(&mut tmp1, c, s1.brk, &s1.brkval, s2.brk, &s2.brkval);
        out
    }
    fn merge_flagged(&mut self, st: &mut State, c: T, f1: T, v1: &Option<Val>, f2: T, v2: &Option<Val>) -> Option<Val> {
        let ff = self.tm.ff;
        match (v1, v2) {
            (Some(a), Some(b)) => {
                if f1 == ff {
                    return Some(b.clone());
                }
                if f2 == ff {
                    return Some(a.clone());
                }
                Some(self.merge_val(st, c, a, b))
            }
            (Some(a), None) => Some(a.clone()),
            (None, b) => b.clone(),
        }
    }
    // ---------------- functions ----------------
    pub fn fn_ctx(&mut self, f: &FnInfo, self_ty: Option<Ty>) -> Ctx {
        let mut ctx = Ctx {
            module: f.module.clone(),
            self_ty: Ty::Unk,
            self_name: f.self_name.clone(),
            trait_: f.trait_.clone(),
            ret_ty: Ty::Unk,
            generics: HashMap::new(),
            fid: f.id,
            consts: HashMap::new(),
        };
        let mut k = 0;
        for g in f.impl_generics.iter().chain(std::iter::once(&f.sig.generics)) {
            for c in g.const_params() {
                let p = self.tm.path(&format!("const{k}"));
                self.tm.ints.insert(p);
                ctx.consts.insert(c.ident.to_string(), p);
                k += 1;
            }
        }
        let mut gens: Vec<String> = f.sig.generics.type_params().map(|x| x.ident.to_string()).collect();
        if let Some(g) = &f.impl_generics {
            gens.extend(g.type_params().map(|x| x.ident.to_string()));
        }
        for g in gens {
            ctx.generics.insert(g.clone(), Ty::Unk);
        }
        let mut its: Vec<(String, Ty)> = vec![];
        let all: Vec<&syn::Generics> = std::iter::once(&f.sig.generics).chain(f.impl_generics.iter()).collect();
        for g in all {
            for tp in g.type_params() {
                if let Some(t) = self.iter_bound(tp.bounds.iter(), &ctx) {
                    its.push((tp.ident.to_string(), t));
                }
            }
            if let Some(w) = &g.where_clause {
                for p in &w.predicates {
                    if let syn::WherePredicate::Type(pt) = p {
                        if let Some(t) = self.iter_bound(pt.bounds.iter(), &ctx) {
                            its.push((crate::load::type_name(&pt.bounded_ty), t));
                        }
                    }
                }
            }
        }
        for (n, t) in its {
            ctx.generics.insert(n, t);
        }
        if let Some(t) = &f.self_ty {
            // the receiver's type arguments instantiate the impl's type parameters
            if let (Some(Ty::Named(_, cargs)), syn::Type::Path(tp)) = (&self_ty, t) {
                if let Some(syn::PathArguments::AngleBracketed(ab)) = tp.path.segments.last().map(|s| &s.arguments) {
                    let tys: Vec<&syn::Type> = ab
                        .args
                        .iter()
                        .filter_map(|a| match a {
                            syn::GenericArgument::Type(t) => Some(t),
                            _ => None,
                        })
                        .collect();
                    for (a, c) in tys.iter().zip(cargs) {
                        let n = crate::load::type_name(a);
                        if *c != Ty::Unk && ctx.generics.get(&n) == Some(&Ty::Unk) {
                            ctx.generics.insert(n, c.clone());
                        }
                    }
                }
            }
            let st = self.ty(&t.clone(), &ctx);
            ctx.self_ty = match self_ty {
                Some(t) if t != Ty::Unk => t,
                _ => st,
            };
            ctx.self_name = match &ctx.self_ty {
                Ty::Named(n, _) => Some(n.clone()),
                _ => f.self_name.clone(),
            };
        } else if f.is_trait_def {
            if let Some(t) = self_ty {
                if let Ty::Named(n, _) = &t {
                    ctx.self_name = Some(n.clone());
                }
                ctx.self_ty = t;
            }
        }
        let rt = match &f.sig.output {
            syn::ReturnType::Default => Ty::Unit,
            syn::ReturnType::Type(_, t) => self.ty(&t.clone(), &ctx),
        };
        ctx.ret_ty = rt;
        ctx
    }
    pub fn param_ty(&mut self, t: &syn::Type, ctx: &Ctx) -> Ty {
        self.ty(t, ctx)
    }
    /// inline a call
    pub fn call(&mut self, st: &mut State, fid: usize, args: Vec<Val>, self_ty: Option<Ty>) -> Val {
        let prog = self.prog.clone();
        let f = &prog.fns[fid];
        let qn = match &f.self_name {
            Some(s) => format!("{}::{}", s, f.name),
            None => f.name.clone(),
        };
        let mut ctx = self.fn_ctx(f, self_ty);
        if !self.stack.is_empty() && (!ctx.consts.is_empty() || ctx.generics.values().any(|t| *t == Ty::Unk)) {
            for (inp, a) in f.sig.inputs.iter().zip(&args) {
                if let syn::FnArg::Typed(pt) = inp {
                    let ty = match a {
                        Val::Ref(p, Ty::Unk) => self.place_ty(st, p),
                        Val::Ref(_, t) => t.clone(),
                        a => self.val_ty(a),
                    };
                    let val = match a {
                        Val::T(t, _) => Some(*t),
                        // an array of known size behind a reference
                        Val::Ref(p, _) if self.opts.unroll > 0 && !ctx.consts.is_empty() => {
                            let v = self.read_deep(st, p);
                            let t = self.to_t(st, &v);
                            matches!(self.tm.n(t), Node::Array(_)).then_some(t)
                        }
                        _ => None,
                    };
                    self.unify(&pt.ty, &ty, val, &mut ctx);
                }
            }
            if let syn::ReturnType::Type(_, t) = &f.sig.output {
                ctx.ret_ty = self.ty(&t.clone(), &ctx);
            }
        }
        // the function under analysis itself is always entered
        let named = !self.stack.is_empty();
        if named && (self.opts.effects.contains(&f.name) || self.opts.effects.contains(&qn)) {
            let rt = ctx.ret_ty.clone();
            return self.effect(st, &f.name.clone(), args, rt);
        }
        if named && self.opts.handles.contains(&f.name) {
            let rt = ctx.ret_ty.clone();
            let ts: Vec<T> = args.iter().map(|a| self.to_t(st, a)).collect();
            let r = self.tm.app(&format!("fn:{}", f.name), ts);
            let root = self.alloc(st, Val::T(r, rt.clone()));
            self.handles.insert(root, r);
            return Val::Ref(Place::root(root), rt);
        }
        let is_opaque = named && (self.opts.opaque.contains(&f.name) || self.opts.opaque.contains(&qn))
            || self.stack.contains(&fid)
            || self.stack.len() > self.opts.max_depth
            || f.block.is_none();
        if is_opaque {
            let rt = ctx.ret_ty.clone();
            return self.opaque_call(st, &qn, args, rt);
        }
        self.inlined.insert(fid);
        let block = f.block.clone().unwrap();
        let mut env = Env { vars: Rc::new(EnvNode::Nil), ctx: Rc::new(ctx) };
        let base = self.stop(st);
        let saved = (st.ret, st.retval.take(), st.brk, st.cont, st.brkval.take(), st.base);
        st.base = base;
        st.ret = self.tm.ff;
        st.brk = self.tm.ff;
        st.cont = self.tm.ff;
        let mut ai = args.into_iter();
        for inp in f.sig.inputs.iter() {
            let a = match ai.next() {
                Some(a) => a,
                None => self.opaque("missing argument"),
            };
            match inp {
                syn::FnArg::Receiver(_) => {
                    let a = match a {
                        Val::T(t, Ty::Unk) => Val::T(t, env.ctx.self_ty.clone()),
                        Val::Ref(p, Ty::Unk) => Val::Ref(p, env.ctx.self_ty.clone()),
                        x => x,
                    };
                    let r = self.alloc(st, a);
                    env.bind("self", r);
                }
                syn::FnArg::Typed(pt) => {
                    let ctx = env.ctx.clone();
                    let ty = self.ty(&pt.ty, &ctx);
                    let a = match a {
                        Val::T(t, Ty::Unk) => Val::T(t, ty),
                        Val::Ref(p, Ty::Unk) => Val::Ref(p, ty),
                        x => x,
                    };
                    let c = self.bind_pat(st, &mut env, &pt.pat, a);
                    let _ = c;
                }
            }
        }
        self.stack.push(fid);
        let rh = env.ctx.ret_ty.clone();
        let v = self.block_to(st, &env, &block, &rh);
        self.stack.pop();
        let res = self.finish_ret(st, v);
        let outer_stop = (saved.0, saved.2, saved.3);
        st.ret = outer_stop.0;
        st.retval = saved.1;
        st.brk = outer_stop.1;
        st.cont = outer_stop.2;
        st.brkval = saved.4;
        st.base = saved.5;
        let rt = env.ctx.ret_ty.clone();
        match res {
            Val::T(t, Ty::Unk) => Val::T(t, rt),
            x => x,
        }
    }
    fn finish_ret(&mut self, st: &mut State, v: Val) -> Val {
        let ret = st.ret;
        if ret == self.tm.ff {
            return v;
        }
        let rv = match st.retval.clone() {
            Some(x) => x,
            None => self.unit(),
        };
        if ret == self.tm.tt {
            return rv;
        }
        self.merge_val(st, ret, &rv, &v)
    }
    pub fn effect(&mut self, st: &mut State, name: &str, args: Vec<Val>, ty: Ty) -> Val {
        let mut ts: Vec<T> = vec![];
        for a in &args {
            let t = self.to_t(st, a);
            ts.push(t);
        }
        let e = self.tm.mk(Node::App(format!("eff:{name}"), ts.clone()));
        let w = self.tm.push(st.world, e);
        let stop = self.stop(st);
        st.world = self.tm.ite(stop, st.world, w);
        let ra = ts;
        let r = self.tm.mk(Node::App(format!("res:{name}"), ra.clone()));
        for (k, a) in args.iter().enumerate() {
            if let Val::Ref(p, t) = a {
                // effects on a communicator handle do not change its identity, but
                // buffers passed by mutable reference are filled
                if k > 0 {
                    let nv = self.tm.mk(Node::App(format!("res:{name}!{k}"), ra.clone()));
                    let (p, t) = (p.clone(), t.clone());
                    self.write(st, &p, Val::T(nv, t));
                }
            }
        }
        Val::T(r, ty)
    }
    pub fn opaque_call(&mut self, st: &mut State, name: &str, args: Vec<Val>, ty: Ty) -> Val {
        let ts: Vec<T> = args.iter().map(|a| self.to_t(st, a)).collect();
        let r = self.tm.app(&format!("fn:{name}"), ts.clone());
        for (k, a) in args.iter().enumerate() {
            if let Val::Ref(p, t) = a {
                let nv = self.tm.app(&format!("fn:{name}!{k}"), ts.clone());
                let (p, t) = (p.clone(), t.clone());
                self.write(st, &p, Val::T(nv, t));
            }
        }
        if let Ty::Named(n, a) = &ty {
            if n == "Iter" {
                return Val::It(Box::new(It::Elems(r, a.first().cloned().unwrap_or(Ty::Unk))));
            }
        }
        Val::T(r, ty)
    }
    pub fn apply(&mut self, st: &mut State, f: &Val, args: Vec<Val>) -> Val {
        match f {
            Val::Clo(c) => {
                let c = c.clone();
                let mut env = c.env.clone();
                let base = self.stop(st);
                let saved = (st.ret, st.retval.take(), st.brk, st.cont, st.brkval.take(), st.base);
                st.base = base;
                st.ret = self.tm.ff;
                st.brk = self.tm.ff;
                st.cont = self.tm.ff;
                let mut it = args.into_iter();
                for p in &c.params {
                    let a = match it.next() {
                        Some(a) => a,
                        None => self.opaque("closure arity"),
                    };
                    self.bind_pat(st, &mut env, p, a);
                }
                let h = self.clo_hints.get(&(Rc::as_ptr(&c.body) as usize)).cloned().unwrap_or(Ty::Unk);
                let v = self.expr_hint(st, &env, &c.body, &h);
                let r = self.finish_ret(st, v);
                st.ret = saved.0;
                st.retval = saved.1;
                st.brk = saved.2;
                st.cont = saved.3;
                st.brkval = saved.4;
                st.base = saved.5;
                r
            }
            Val::Fn(p, ctx) => {
                let env = Env { vars: Rc::new(EnvNode::Nil), ctx: ctx.clone() };
                self.call_path(st, &env, &p.clone(), args, None)
            }
            // a function given as an argument
            other if self.opts.effects.contains("apply") => {
                let mut a = vec![other.clone()];
                a.extend(args);
                self.effect(st, "apply", a, Ty::Unk)
            }
            other => {
                let ft = self.to_t(st, other);
                let mut ts = vec![ft];
                for a in &args {
                    let t = self.to_t(st, a);
                    ts.push(t);
                }
                let r = self.tm.app("apply", ts);
                Val::T(r, Ty::Unk)
            }
        }
    }
    // ---------------- statements ----------------
    pub fn block(&mut self, st: &mut State, env: &Env, b: &syn::Block) -> Val {
        self.block_to(st, env, b, &Ty::Unk)
    }
    pub fn block_to(&mut self, st: &mut State, env: &Env, b: &syn::Block, hint: &Ty) -> Val {
        let mut env = env.clone();
        self.stmts(st, &mut env, &b.stmts, hint)
    }
    fn stmts(&mut self, st: &mut State, env: &mut Env, ss: &[syn::Stmt], hint: &Ty) -> Val {
        let feats = self.prog.features.clone();
        for (k, s) in ss.iter().enumerate() {
            self.steps += 1;
            let last = k + 1 == ss.len();
            let before = self.stop(st);
            let mut val: Option<Val> = None;
            match s {
                syn::Stmt::Local(l) => {
                    if !crate::load::cfg_ok(&l.attrs, &feats).0 {
                        continue;
                    }
                    self.local(st, env, l);
                }
                syn::Stmt::Item(it) => {
                    if let syn::Item::Const(c) = it {
                        let v = self.expr(st, env, &c.expr);
                        let ctx = env.ctx.clone();
                        let ty = self.ty(&c.ty, &ctx);
                        let v = match v {
                            Val::T(t, Ty::Unk) => Val::T(t, ty),
                            x => x,
                        };
                        let r = self.alloc(st, v);
                        env.bind(&c.ident.to_string(), r);
                    }
                    if let syn::Item::Fn(f) = it {
                        // local function: closure without captures
                        let params = f
                            .sig
                            .inputs
                            .iter()
                            .filter_map(|a| match a {
                                syn::FnArg::Typed(t) => Some(syn::Pat::Type(syn::PatType {
                                    attrs: vec![],
                                    pat: t.pat.clone(),
                                    colon_token: t.colon_token,
                                    ty: t.ty.clone(),
                                })),
                                _ => None,
                            })
                            .collect();
                        let body = syn::Expr::Block(syn::ExprBlock {
                            attrs: vec![],
                            label: None,
                            block: (*f.block).clone(),
                        });
                        let c = Clo { params, body: Rc::new(body), env: env.clone() };
                        let r = self.alloc(st, Val::Clo(Rc::new(c)));
                        env.bind(&f.sig.ident.to_string(), r);
                    }
                }
                syn::Stmt::Expr(e, semi) => {
                    if let Some(a) = expr_attrs(e) {
                        if !crate::load::cfg_ok(a, &feats).0 {
                            continue;
                        }
                    }
                    let v = if last && semi.is_none() { self.expr_hint(st, env, e, hint) } else { self.expr(st, env, e) };
                    if last && semi.is_none() {
                        val = Some(v);
                    }
                }
                syn::Stmt::Macro(m) => {
                    if !crate::load::cfg_ok(&m.attrs, &feats).0 {
                        continue;
                    }
                    let v = self.macro_(st, env, &m.mac);
                    if last && m.semi_token.is_none() {
                        val = Some(v);
                    }
                }
            }
            if let Some(v) = val {
                return v;
            }
            if st.dead {
                return self.unit();
            }
            let stop = self.stop(st);
            if stop == self.tm.tt {
                return self.unit();
            }
            if stop != self.tm.ff && stop != before && !last {
                // the rest only runs where we have not left yet
                let s_before = st.clone();
                let mut s_rest = st.clone();
                s_rest.ret = self.tm.ff;
                s_rest.brk = self.tm.ff;
                s_rest.cont = self.tm.ff;
                let v = self.stmts(&mut s_rest, env, &ss[k + 1..], hint);
                // values of variables keep for the stopped case
                let mut s_b = s_before;
                s_b.vars.resize(s_rest.vars.len().max(s_b.vars.len()), None);
                *st = self.merge(stop, s_b, s_rest);
                return v;
            }
        }
        self.unit()
    }
    fn local(&mut self, st: &mut State, env: &mut Env, l: &syn::Local) {
        let (pat, ty) = match &l.pat {
            syn::Pat::Type(pt) => {
                let ctx = env.ctx.clone();
                let t = self.ty(&pt.ty, &ctx);
                ((*pt.pat).clone(), t)
            }
            p => (p.clone(), Ty::Unk),
        };
        match &l.init {
            None => {
                let v = self.tm.mk(Node::App("uninit".into(), vec![]));
                self.bind_pat(st, env, &pat, Val::T(v, ty));
            }
            Some(init) => {
                let v = self.expr_hint(st, env, &init.expr, &ty);
                let v = match v {
                    Val::T(t, Ty::Unk) => Val::T(t, ty),
                    Val::T(t, Ty::Arr(e, _)) if *e == Ty::Unk && ty != Ty::Unk => Val::T(t, ty),
                    x => x,
                };
                if let Some((_, els)) = &init.diverge {
                    let c = self.pat_cond(st, env, &pat, &v);
                    let mut s_else = st.clone();
                    self.expr(&mut s_else, env, els);
                    let s_ok = st.clone();
                    *st = self.merge(c, s_ok, s_else);
                    self.bind_pat(st, env, &pat, v);
                } else {
                    self.bind_pat(st, env, &pat, v);
                }
            }
        }
    }
    // ---------------- patterns ----------------
    fn variant_name(&mut self, env: &Env, p: &syn::Path) -> Option<String> {
        let segs = path_segs(p);
        self.variant_of(env, &segs)
    }
    pub fn variant_of(&mut self, env: &Env, segs: &[String]) -> Option<String> {
        let last = segs.last().unwrap().clone();
        if matches!(last.as_str(), "Some" | "None" | "Ok" | "Err") {
            return Some(last);
        }
        if segs.len() >= 2 {
            let mut en = segs[segs.len() - 2].clone();
            if en == "Self" {
                en = env.ctx.self_name.clone().unwrap_or(en);
            }
            if let Some(p) = self.prog.uses.get(&env.ctx.module).and_then(|u| u.get(&en)) {
                en = p.last().unwrap().clone();
            }
            // aliases of enums
            if !self.tm.enums.contains_key(&en) {
                if let Some(a) = self.prog.aliases.iter().find(|a| a.0 == en) {
                    en = crate::load::type_name(&a.3);
                }
            }
            let k = format!("{en}::{last}");
            if self.tm.var_enum.contains_key(&k) {
                return Some(k);
            }
            return None;
        }
        // imported variant
        if let Some(p) = self.prog.uses.get(&env.ctx.module).and_then(|u| u.get(&last)) {
            if p.len() >= 2 {
                let k = format!("{}::{}", p[p.len() - 2], p[p.len() - 1]);
                if self.tm.var_enum.contains_key(&k) {
                    return Some(k);
                }
            }
        }
        None
    }
    fn sub(&mut self, st: &mut State, v: &Val, f: &str) -> Val {
        match v {
            Val::Ref(p, ty) => {
                // look through references stored in the place
                let q = p.f(f);
                let cur = self.read(st, p);
                match cur {
                    Val::Tup(_) | Val::OptRef(..) | Val::Ref(..) => {
                        let fv = self.sub(st, &cur, f);
                        if let Val::T(..) = fv {
                            Val::Ref(q, Ty::Unk)
                        } else {
                            fv
                        }
                    }
                    _ => {
                        let fty = match (ty, f) {
                            (Ty::Opt(i), "Some#0") => (**i).clone(),
                            (Ty::Res(i, _), "Ok#0") => (**i).clone(),
                            _ => self.field_ty(ty, f),
                        };
                        Val::Ref(q, fty)
                    }
                }
            }
            Val::OptRef(_, p, t) if f == "Some#0" => Val::Ref(p.clone(), t.clone()),
            Val::Tup(xs) => match f.parse::<usize>().ok().and_then(|i| xs.get(i).cloned()) {
                Some(x) => x,
                None => {
                    let t = self.to_t(st, v);
                    Val::T(self.tm.field(t, f), Ty::Unk)
                }
            },
            _ => {
                let ty = self.val_ty(v);
                let t = self.to_t(st, v);
                let fty = match (&ty, f) {
                    (Ty::Opt(i), "Some#0") => (**i).clone(),
                    (Ty::Res(i, _), "Ok#0") => (**i).clone(),
                    (Ty::Res(_, i), "Err#0") => (**i).clone(),
                    _ => {
                        if let Some(k) = f.find('#') {
                            self.variant_field_ty(&f[..k], &f[k + 1..])
                        } else {
                            self.field_ty(&ty, f)
                        }
                    }
                };
                Val::T(self.tm.field(t, f), fty)
            }
        }
    }
    fn variant_field_ty(&mut self, v: &str, f: &str) -> Ty {
        let prog = self.prog.clone();
        if let Some((e, vn)) = v.split_once("::") {
            if let Some(ei) = prog.enums.iter().find(|x| x.name == e) {
                if let Some(vi) = ei.variants.iter().find(|x| x.0 == vn) {
                    if let Some(ft) = vi.1.iter().find(|x| x.0 == f) {
                        let cx = Ctx {
                            module: ei.module.clone(),
                            self_ty: Ty::Named(e.into(), vec![]),
                            self_name: Some(e.into()),
                            trait_: None,
                            ret_ty: Ty::Unk,
                            generics: HashMap::new(),
                            fid: 0,
                            consts: HashMap::new(),
                        };
                        return self.ty(&ft.1, &cx);
                    }
                }
            }
        }
        Ty::Unk
    }
    fn is_variant(&mut self, st: &mut State, v: &Val, name: &str) -> T {
        match v {
            Val::OptRef(c, _, _) => {
                if name == "Some" {
                    *c
                } else {
                    self.tm.not(*c)
                }
            }
            Val::Ref(p, _) => {
                let x = self.read(st, p);
                match x {
                    Val::OptRef(..) => self.is_variant(st, &x, name),
                    _ => {
                        let t = self.to_t(st, &x);
                        self.tm.is(t, name)
                    }
                }
            }
            _ => {
                let t = self.to_t(st, v);
                self.tm.is(t, name)
            }
        }
    }
    /// condition under which the pattern matches
    pub fn pat_cond(&mut self, st: &mut State, env: &Env, p: &syn::Pat, v: &Val) -> T {
        match p {
            syn::Pat::Wild(_) | syn::Pat::Rest(_) => self.tm.tt,
            syn::Pat::Ident(i) => {
                if let Some((_, sp)) = &i.subpat {
                    return self.pat_cond(st, env, sp, v);
                }
                let n = i.ident.to_string();
                if n == "None" {
                    return self.is_variant(st, v, "None");
                }
                if n.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                    if let Some(vn) = self.variant_of(env, &[n.clone()]) {
                        return self.is_variant(st, v, &vn);
                    }
                    if env.get(&n).is_some() || self.prog.consts.iter().any(|c| c.name == n) {
                        let c = self.path_value(st, env, &[n]);
                        let a = self.to_t(st, v);
                        let b = self.to_t(st, &c);
                        return self.tm.eq(a, b);
                    }
                }
                self.tm.tt
            }
            syn::Pat::Reference(r) => self.pat_cond(st, env, &r.pat, v),
            syn::Pat::Paren(r) => self.pat_cond(st, env, &r.pat, v),
            syn::Pat::Type(r) => self.pat_cond(st, env, &r.pat, v),
            syn::Pat::Tuple(t) => {
                let mut c = self.tm.tt;
                for (k, x) in t.elems.iter().enumerate() {
                    let s = self.sub(st, v, &k.to_string());
                    let d = self.pat_cond(st, env, x, &s);
                    c = self.tm.and(c, d);
                }
                c
            }
            syn::Pat::TupleStruct(t) => {
                let vn = self.variant_name(env, &t.path);
                let mut c = match &vn {
                    Some(n) => self.is_variant(st, v, n),
                    None => self.tm.tt,
                };
                for (k, x) in t.elems.iter().enumerate() {
                    let f = match &vn {
                        Some(n) => format!("{n}#{k}"),
                        None => k.to_string(),
                    };
                    let s = self.sub(st, v, &f);
                    let d = self.pat_cond(st, env, x, &s);
                    c = self.tm.and(c, d);
                }
                c
            }
            syn::Pat::Struct(t) => {
                let vn = self.variant_name(env, &t.path);
                let mut c = match &vn {
                    Some(n) => self.is_variant(st, v, n),
                    None => self.tm.tt,
                };
                for fp in &t.fields {
                    let k = match &fp.member {
                        syn::Member::Named(i) => i.to_string(),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    let f = match &vn {
                        Some(n) => format!("{n}#{k}"),
                        None => k,
                    };
                    let s = self.sub(st, v, &f);
                    let d = self.pat_cond(st, env, &fp.pat, &s);
                    c = self.tm.and(c, d);
                }
                c
            }
            syn::Pat::Path(pp) => {
                let vn = self.variant_name(env, &pp.path);
                match vn {
                    Some(n) => self.is_variant(st, v, &n),
                    None => {
                        let segs = path_segs(&pp.path);
                        let c = self.path_value(st, env, &segs);
                        let a = self.to_t(st, v);
                        let b = self.to_t(st, &c);
                        self.tm.eq(a, b)
                    }
                }
            }
            syn::Pat::Or(o) => {
                let mut c = self.tm.ff;
                for x in &o.cases {
                    let d = self.pat_cond(st, env, x, v);
                    c = self.tm.or(c, d);
                }
                c
            }
            syn::Pat::Lit(l) => {
                let e = syn::Expr::Lit(syn::ExprLit { attrs: vec![], lit: l.lit.clone() });
                let b = self.expr(st, env, &e);
                let a = self.to_t(st, v);
                let b = self.to_t(st, &b);
                if b == self.tm.tt {
                    return a;
                }
                if b == self.tm.ff {
                    return self.tm.not(a);
                }
                self.tm.eq(a, b)
            }
            syn::Pat::Range(r) => {
                let a = self.to_t(st, v);
                let mut c = self.tm.tt;
                if let Some(s) = &r.start {
                    let x = self.expr(st, env, s);
                    let x = self.to_t(st, &x);
                    c = self.tm.le(x, a);
                }
                if let Some(s) = &r.end {
                    let x = self.expr(st, env, s);
                    let x = self.to_t(st, &x);
                    let d = match r.limits {
                        syn::RangeLimits::HalfOpen(_) => self.tm.lt(a, x),
                        syn::RangeLimits::Closed(_) => self.tm.le(a, x),
                    };
                    c = self.tm.and(c, d);
                }
                c
            }
            syn::Pat::Slice(s) => {
                let a = self.to_t(st, v);
                let n = s.elems.len();
                let has_rest = s.elems.iter().any(|e| is_rest(e));
                let l = self.tm.len(a);
                let k = self.tm.int(if has_rest { n as i64 - 1 } else { n as i64 });
                let mut c = if has_rest { self.tm.le(k, l) } else { self.tm.eq(l, k) };
                for (i, x) in s.elems.iter().enumerate() {
                    if is_rest(x) {
                        break;
                    }
                    let it = self.tm.int(i as i64);
                    let e = self.tm.index(a, it);
                    let d = self.pat_cond(st, env, x, &Val::T(e, Ty::Unk));
                    c = self.tm.and(c, d);
                }
                c
            }
            _ => {
                let o = self.opaque("pattern");
                self.to_t(st, &o)
            }
        }
    }
    pub fn bind_pat(&mut self, st: &mut State, env: &mut Env, p: &syn::Pat, v: Val) {
        match p {
            syn::Pat::Wild(_) | syn::Pat::Rest(_) => {}
            syn::Pat::Ident(i) => {
                let n = i.ident.to_string();
                if n == "None" || self.variant_of(env, &[n.clone()]).is_some() {
                    return;
                }
                if let Some((_, sp)) = &i.subpat {
                    self.bind_pat(st, env, sp, v.clone());
                }
                let r = self.alloc(st, v);
                env.bind(&n, r);
            }
            syn::Pat::Reference(r) => {
                // &x pattern: copy out
                let v2 = match &v {
                    Val::Ref(p, _) if r.mutability.is_none() => self.read(st, p),
                    _ => v,
                };
                self.bind_pat(st, env, &r.pat, v2)
            }
            syn::Pat::Paren(r) => self.bind_pat(st, env, &r.pat, v),
            syn::Pat::Type(r) => {
                let ctx = env.ctx.clone();
                let ty = self.ty(&r.ty, &ctx);
                let v = match v {
                    Val::T(t, Ty::Unk) => Val::T(t, ty),
                    Val::Ref(p, Ty::Unk) => Val::Ref(p, ty),
                    x => x,
                };
                self.bind_pat(st, env, &r.pat, v)
            }
            syn::Pat::Tuple(t) => {
                let n = t.elems.len();
                let rest = t.elems.iter().position(is_rest);
                for (k, x) in t.elems.iter().enumerate() {
                    if is_rest(x) {
                        continue;
                    }
                    let _ = n;
                    let _ = rest;
                    let s = self.sub(st, &v, &k.to_string());
                    self.bind_pat(st, env, x, s);
                }
            }
            syn::Pat::TupleStruct(t) => {
                let vn = self.variant_name(env, &t.path);
                for (k, x) in t.elems.iter().enumerate() {
                    let f = match &vn {
                        Some(n) => format!("{n}#{k}"),
                        None => k.to_string(),
                    };
                    let s = self.sub(st, &v, &f);
                    self.bind_pat(st, env, x, s);
                }
            }
            syn::Pat::Struct(t) => {
                let vn = self.variant_name(env, &t.path);
                for fp in &t.fields {
                    let k = match &fp.member {
                        syn::Member::Named(i) => i.to_string(),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    let f = match &vn {
                        Some(n) => format!("{n}#{k}"),
                        None => k,
                    };
                    let s = self.sub(st, &v, &f);
                    self.bind_pat(st, env, &fp.pat, s);
                }
            }
            syn::Pat::Slice(s) => {
                let a = self.to_t(st, &v);
                let ety = self.val_ty(&v).elem();
                let n = s.elems.len();
                let mut after = false;
                for (i, x) in s.elems.iter().enumerate() {
                    if is_rest(x) {
                        after = true;
                        if let syn::Pat::Ident(id) = x {
                            let lo = self.tm.int(i as i64);
                            let l = self.tm.len(a);
                            let tail = self.tm.int((n - 1 - i) as i64);
                            let hi = self.tm.sub(l, tail);
                            let sl = self.slice(a, lo, hi);
                            let r = self.alloc(st, Val::T(sl, Ty::arr((ety.clone()))));
                            env.bind(&id.ident.to_string(), r);
                        }
                        continue;
                    }
                    let it = if after {
                        let l = self.tm.len(a);
                        let k = self.tm.int((n - i) as i64);
                        self.tm.sub(l, k)
                    } else {
                        self.tm.int(i as i64)
                    };
                    let e = self.tm.index(a, it);
                    self.bind_pat(st, env, x, Val::T(e, ety.clone()));
                }
            }
            syn::Pat::Or(o) => {
                // same bindings in all cases: bind by decision
                if o.cases.len() == 1 {
                    self.bind_pat(st, env, &o.cases[0], v);
                    return;
                }
                let mut names = vec![];
                pat_names(&o.cases[0], &mut names);
                let mut acc: HashMap<String, Val> = HashMap::new();
                for x in o.cases.iter().rev() {
                    let c = self.pat_cond(st, env, x, &v);
                    let mut e2 = env.clone();
                    self.bind_pat(st, &mut e2, x, v.clone());
                    for n in &names {
                        if let Some(r) = e2.get(n) {
                            let nv = self.read_root(st, r);
                            let m = match acc.get(n).cloned() {
                                None => nv,
                                Some(o) => self.merge_val(st, c, &nv, &o),
                            };
                            acc.insert(n.clone(), m);
                        }
                    }
                }
                for (n, v) in acc {
                    let r = self.alloc(st, v);
                    env.bind(&n, r);
                }
            }
            _ => {}
        }
    }
    pub fn slice(&mut self, a: T, lo: T, hi: T) -> T {
        let l = self.tm.len(a);
        if lo == self.tm.zero && hi == l {
            return a;
        }
        let cnt = self.tm.sub(hi, lo);
        let bv = self.tm.mk(Node::BV(0));
        let lo1 = self.tm.shift(lo, 1);
        let a1 = self.tm.shift(a, 1);
        let idx = self.tm.add(lo1, bv);
        let v = self.tm.index(a1, idx);
        if let Some(k) = self.tm.as_i64(cnt) {
            if (0..=16).contains(&k) {
                let v2 = (0..k)
                    .map(|i| {
                        let it = self.tm.int(i);
                        self.tm.open1(v, it)
                    })
                    .collect();
                return self.tm.array(v2);
            }
        }
        let b = self.tm.empty_seq_base();
        let tt = self.tm.tt;
        self.tm.seq(b, vec![Item::Gen(vec![cnt], tt, v)])
    }
    // ---------------- literals ----------------
    pub fn lit(&mut self, l: &syn::Lit) -> Val {
        match l {
            syn::Lit::Int(i) => {
                let ty = match i.suffix() {
                    "f64" | "f32" => Ty::Float,
                    _ => Ty::Int,
                };
                let n = BigInt::from_str(i.base10_digits()).unwrap_or_else(|_| BigInt::zero());
                let t = self.tm.num(Rat::from_integer(n));
                Val::T(t, ty)
            }
            syn::Lit::Float(f) => {
                let r = parse_float(f.base10_digits()).unwrap_or_else(Rat::zero);
                let t = self.tm.num(r);
                Val::T(t, Ty::Float)
            }
            syn::Lit::Bool(b) => Val::T(self.tm.bool(b.value), Ty::Bool),
            syn::Lit::Str(s) => {
                let t = self.tm.str(&s.value());
                Val::T(t, Ty::Str)
            }
            syn::Lit::Char(c) => {
                let t = self.tm.str(&c.value().to_string());
                Val::T(t, Ty::Str)
            }
            syn::Lit::Byte(b) => {
                let t = self.tm.int(b.value() as i64);
                Val::T(t, Ty::Int)
            }
            _ => self.opaque("literal"),
        }
    }
}
pub fn parse_float(s: &str) -> Option<Rat> {
    let s = s.replace('_', "");
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (s[..i].to_string(), s[i + 1..].parse::<i32>().ok()?),
        None => (s.clone(), 0),
    };
    let (ip, fp) = match m.find('.') {
        Some(i) => (m[..i].to_string(), m[i + 1..].to_string()),
        None => (m.clone(), String::new()),
    };
    let digits = format!("{ip}{fp}");
    let n = BigInt::from_str(if digits.is_empty() { "0" } else { &digits }).ok()?;
    let exp = e - fp.len() as i32;
    let ten = BigInt::from(10);
    let r = Rat::from_integer(n);
    Some(if exp >= 0 {
        r * Rat::from_integer(Pow::pow(&ten, exp as u32))
    } else {
        r / Rat::from_integer(Pow::pow(&ten, (-exp) as u32))
    })
}
pub fn is_rest(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Rest(_) => true,
        syn::Pat::Ident(i) => matches!(&i.subpat, Some((_, s)) if matches!(**s, syn::Pat::Rest(_))),
        _ => false,
    }
}
fn pat_names(p: &syn::Pat, out: &mut Vec<String>) {
    match p {
        syn::Pat::Ident(i) => out.push(i.ident.to_string()),
        syn::Pat::Reference(r) => pat_names(&r.pat, out),
        syn::Pat::Paren(r) => pat_names(&r.pat, out),
        syn::Pat::Tuple(t) => t.elems.iter().for_each(|x| pat_names(x, out)),
        syn::Pat::TupleStruct(t) => t.elems.iter().for_each(|x| pat_names(x, out)),
        syn::Pat::Struct(t) => t.fields.iter().for_each(|x| pat_names(&x.pat, out)),
        _ => {}
    }
}
pub fn expr_attrs(e: &syn::Expr) -> Option<&Vec<syn::Attribute>> {
    Some(match e {
        syn::Expr::Block(b) => &b.attrs,
        syn::Expr::If(b) => &b.attrs,
        syn::Expr::ForLoop(b) => &b.attrs,
        syn::Expr::While(b) => &b.attrs,
        syn::Expr::Match(b) => &b.attrs,
        syn::Expr::Call(b) => &b.attrs,
        syn::Expr::MethodCall(b) => &b.attrs,
        syn::Expr::Assign(b) => &b.attrs,
        syn::Expr::Macro(b) => &b.attrs,
        syn::Expr::Return(b) => &b.attrs,
        syn::Expr::Lit(b) => &b.attrs,
        syn::Expr::Path(b) => &b.attrs,
        _ => return None,
    })
}
#[allow(dead_code)]
fn _one() -> Rat {
    Rat::one()
}

/// replace a generic parameter in a type
fn subst_type(t: &mut syn::Type, g: &str, a: &syn::GenericArgument) {
    match t {
        syn::Type::Reference(r) => subst_type(&mut r.elem, g, a),
        syn::Type::Paren(r) => subst_type(&mut r.elem, g, a),
        syn::Type::Slice(r) => subst_type(&mut r.elem, g, a),
        syn::Type::Tuple(r) => {
            for e in r.elems.iter_mut() {
                subst_type(e, g, a);
            }
        }
        syn::Type::Array(r) => {
            subst_type(&mut r.elem, g, a);
            if let syn::Expr::Path(p) = &r.len {
                if p.path.is_ident(g) {
                    match a {
                        syn::GenericArgument::Const(e) => r.len = e.clone(),
                        syn::GenericArgument::Type(syn::Type::Path(tp)) => {
                            r.len = syn::Expr::Path(syn::ExprPath { attrs: vec![], qself: None, path: tp.path.clone() })
                        }
                        _ => {}
                    }
                }
            }
        }
        syn::Type::Path(p) if p.path.is_ident(g) => {
            if let syn::GenericArgument::Type(n) = a {
                *t = n.clone();
            }
        }
        _ => {}
    }
}
