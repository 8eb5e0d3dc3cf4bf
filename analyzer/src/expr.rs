//! Expressions.
use crate::eval::*;
use crate::term::{Node, T};
use crate::val::*;
use std::rc::Rc;

pub fn strip(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip(&p.expr),
        syn::Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

impl Ev {
    pub fn expr(&mut self, st: &mut State, env: &Env, e: &syn::Expr) -> Val {
        self.expr_hint(st, env, e, &Ty::Unk)
    }
    pub fn expr_t(&mut self, st: &mut State, env: &Env, e: &syn::Expr) -> T {
        let v = self.expr(st, env, e);
        self.to_t(st, &v)
    }
    pub fn expr_hint(&mut self, st: &mut State, env: &Env, e: &syn::Expr, hint: &Ty) -> Val {
        self.steps += 1;
        if self.steps > 3_000_000 {
            return self.opaque("budget exhausted");
        }
        match e {
            syn::Expr::Paren(p) => self.expr_hint(st, env, &p.expr, hint),
            syn::Expr::Group(p) => self.expr_hint(st, env, &p.expr, hint),
            syn::Expr::Lit(l) => self.lit(&l.lit),
            syn::Expr::Path(p) => {
                let segs = path_segs(&p.path);
                if let Some(q) = &p.qself {
                    let ctx = env.ctx.clone();
                    let t = self.ty(&q.ty, &ctx);
                    if let Some(n) = t.name() {
                        let v = vec![n.to_string(), segs.last().unwrap().clone()];
                        return self.path_value(st, env, &v);
                    }
                }
                self.path_value(st, env, &segs)
            }
            syn::Expr::Unary(u) => self.unary(st, env, u),
            syn::Expr::Binary(b) => self.binary_expr(st, env, b),
            syn::Expr::Assign(a) => {
                let v = self.expr(st, env, &a.right);
                self.assign_to(st, env, &a.left, v);
                self.unit()
            }
            syn::Expr::Field(_) | syn::Expr::Index(_) => self.place_or_value(st, env, e),
            syn::Expr::Tuple(t) => {
                if t.elems.is_empty() {
                    return self.unit();
                }
                let hs: Vec<Ty> = match hint {
                    Ty::Tuple(v) if v.len() == t.elems.len() => v.clone(),
                    _ => vec![Ty::Unk; t.elems.len()],
                };
                let v: Vec<Val> = t.elems.iter().zip(hs).map(|(x, h)| self.expr_hint(st, env, x, &h)).collect();
                Val::Tup(v)
            }
            // a list of places to be written to
            syn::Expr::Array(a) if a.elems.iter().any(|x| matches!(x, syn::Expr::Reference(r) if r.mutability.is_some()) || matches!(x, syn::Expr::Tuple(t) if t.elems.iter().any(|y| matches!(y, syn::Expr::Reference(r) if r.mutability.is_some())))) => {
                let vs = a.elems.iter().map(|x| self.expr(st, env, x)).collect();
                Self::bx(It::Items(vs))
            }
            syn::Expr::Array(a) => {
                let mut ts = vec![];
                let mut ety = Ty::Unk;
                for x in &a.elems {
                    let v = self.expr(st, env, x);
                    if ety == Ty::Unk {
                        ety = self.val_ty(&v);
                    }
                    ts.push(self.to_t(st, &v));
                }
                let t = self.tm.array(ts);
                Val::T(t, Ty::arr((ety)))
            }
            syn::Expr::Repeat(r) => {
                let v = self.expr(st, env, &r.expr);
                let ety = self.val_ty(&v);
                let x = self.to_t(st, &v);
                let n = self.expr_t(st, env, &r.len);
                let t = self.repeat(x, n);
                Val::T(t, Ty::arr((ety)))
            }
            syn::Expr::Struct(s) => self.struct_lit(st, env, s, hint),
            syn::Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Some((p, ty)) = self.place(st, env, &r.expr) {
                        return Val::Ref(p, ty);
                    }
                    let v = self.expr_hint(st, env, &r.expr, hint);
                    if matches!(v, Val::T(..)) {
                        let ty = self.val_ty(&v);
                        let root = self.alloc(st, v);
                        return Val::Ref(Place::root(root), ty);
                    }
                    return v;
                }
                let v = self.expr_hint(st, env, &r.expr, hint);
                match v {
                    Val::Ref(p, _) => self.read_deep(st, &p),
                    x => x,
                }
            }
            syn::Expr::Block(b) => {
                if let Some(l) = &b.label {
                    let _ = l;
                    return self.labeled_block(st, env, &b.block);
                }
                let mut env2 = env.clone();
                let _ = &mut env2;
                self.block_hint(st, env, &b.block, hint)
            }
            syn::Expr::Unsafe(b) => self.block_hint(st, env, &b.block, hint),
            syn::Expr::If(i) => self.if_expr(st, env, i, hint),
            syn::Expr::Match(m) => self.match_expr(st, env, m, hint),
            syn::Expr::Let(l) => {
                let v = self.scrutinee(st, env, &l.expr, ref_mut(&l.pat));
                let c = self.pat_cond(st, env, &l.pat, &v);
                Val::T(c, Ty::Bool)
            }
            syn::Expr::Closure(c) => {
                let clo = Clo {
                    params: c.inputs.iter().cloned().collect(),
                    body: Rc::new((*c.body).clone()),
                    env: env.clone(),
                };
                Val::Clo(Rc::new(clo))
            }
            syn::Expr::Return(r) => {
                let h = env.ctx.ret_ty.clone();
                let v = match &r.expr {
                    Some(x) => self.expr_hint(st, env, x, &h),
                    None => self.unit(),
                };
                self.do_return(st, v);
                self.unit()
            }
            syn::Expr::Break(b) => {
                let v = match &b.expr {
                    Some(x) => Some(self.expr(st, env, x)),
                    None => None,
                };
                if let Some(l) = &b.label {
                    return self.labeled_exit(st, env, &l.ident.to_string(), true);
                }
                let stop = self.stop(st);
                if let Some(v) = v {
                    let nv = match st.brkval.clone() {
                        Some(o) if stop != self.tm.ff => self.merge_val(st, stop, &o, &v),
                        _ => v,
                    };
                    st.brkval = Some(nv);
                }
                let tt = self.tm.tt;
                let other = self.not_elsewhere(st);
                st.brk = self.tm.ite(other, tt, st.brk);
                self.unit()
            }
            syn::Expr::Continue(c) => {
                if let Some(l) = &c.label {
                    return self.labeled_exit(st, env, &l.ident.to_string(), false);
                }
                let tt = self.tm.tt;
                let other = self.not_elsewhere(st);
                st.cont = self.tm.ite(other, tt, st.cont);
                self.unit()
            }
            syn::Expr::Try(t) => {
                let v = self.expr(st, env, &t.expr);
                self.try_(st, v)
            }
            syn::Expr::Cast(c) => {
                let v = self.expr(st, env, &c.expr);
                let ctx = env.ctx.clone();
                let ty = self.ty(&c.ty, &ctx);
                let from = self.val_ty(&v);
                let x = self.to_t(st, &v);
                if self.tm.is_bool(x) || from == Ty::Bool {
                    let (o, z) = (self.tm.one, self.tm.zero);
                    let r = self.tm.ite(x, o, z);
                    return Val::T(r, ty);
                }
                let narrow = match &*c.ty {
                    syn::Type::Path(p) => ["u8", "u16", "u32", "i8", "i16", "i32"].into_iter().find(|n| p.path.is_ident(n)),
                    _ => None,
                };
                let signed = matches!(&*c.ty, syn::Type::Path(p) if p.path.is_ident("i64") || p.path.is_ident("isize") || p.path.is_ident("i128"));
                let narrow = narrow.or(if signed && from != Ty::Int { Some("signed") } else { None });
                let rounded = matches!(self.tm.n(x), Node::App(f, _) if matches!(f.as_str(), "ceil" | "floor" | "round" | "trunc" | "log2" | "sqrt" | "ln" | "log10"));
                let from = if from == Ty::Unk && rounded { Ty::Float } else { from };
                let r = match (&from, &ty) {
                    (Ty::Float, Ty::Int) => match narrow {
                        Some(n) => self.tm.app(&format!("toint_{n}"), vec![x]),
                        None => self.tm.app("toint", vec![x]),
                    },
                    (Ty::Int, Ty::Int) if narrow.is_some() && self.tm.as_num(x).is_none() && !self.fits(x) => self.tm.app(&format!("narrow_{}", narrow.unwrap()), vec![x]),
                    (Ty::Float, Ty::Float) if matches!(&*c.ty, syn::Type::Path(p) if p.path.is_ident("f32")) => self.tm.app("f32", vec![x]),
                    _ => x,
                };
                Val::T(r, if ty == Ty::Unk { from } else { ty })
            }
            syn::Expr::Range(_) => self.range(st, env, e),
            syn::Expr::Call(c) => self.call_expr(st, env, c, hint),
            syn::Expr::MethodCall(m) => self.method_expr(st, env, m, hint),
            syn::Expr::Macro(m) => self.macro_(st, env, &m.mac),
            syn::Expr::ForLoop(f) => self.for_loop(st, env, f),
            syn::Expr::While(w) => self.while_loop(st, env, w),
            syn::Expr::Loop(l) => self.plain_loop(st, env, l),
            _ => self.opaque("expression kind"),
        }
    }
    /// neither returned nor broken nor continued yet
    fn not_elsewhere(&mut self, st: &State) -> T {
        let a = self.tm.or(st.ret, st.brk);
        let a = self.tm.or(a, st.cont);
        self.tm.not(a)
    }
    pub fn do_return(&mut self, st: &mut State, v: Val) {
        let left = self.not_elsewhere(st);
        let left_n = self.tm.not(left);
        let nv = match st.retval.clone() {
            Some(o) if left_n != self.tm.ff => self.merge_val(st, left_n, &o, &v),
            _ => match v {
                Val::Ref(..) | Val::OptRef(..) | Val::Tup(_) | Val::It(_) | Val::Clo(_) => v,
                x => x,
            },
        };
        st.retval = Some(nv);
        let tt = self.tm.tt;
        st.ret = self.tm.ite(left, tt, st.ret);
    }
    fn labeled_block(&mut self, st: &mut State, env: &Env, b: &syn::Block) -> Val {
        let _ = b;
        let _ = env;
        let _ = st;
        self.opaque("labelled block")
    }
    fn labeled_exit(&mut self, st: &mut State, env: &Env, label: &str, is_break: bool) -> Val {
        // supported only when the label names the innermost loop
        match env.get(&format!("'{label}")) {
            Some(_) if env.get("'innermost").is_some() && env.get(&format!("'{label}")) == env.get("'innermost") => {
                let tt = self.tm.tt;
                let other = self.not_elsewhere(st);
                if is_break {
                    st.brk = self.tm.ite(other, tt, st.brk);
                } else {
                    st.cont = self.tm.ite(other, tt, st.cont);
                }
                self.unit()
            }
            _ => {
                let o = self.opaque("labelled break");
                let t = self.to_t(st, &o);
                st.world = t;
                o
            }
        }
    }
    pub fn try_(&mut self, st: &mut State, v: Val) -> Val {
        let ty = self.val_ty(&v);
        let t = self.to_t(st, &v);
        // Option or Result?
        let is_opt = matches!(ty, Ty::Opt(_)) || self.looks_option(t);
        if is_opt {
            let c = self.tm.is(t, "Some");
            let n = self.tm.none();
            let x = self.tm.payload(t, "Some", "0");
            self.early(st, c, Val::T(n, Ty::Unk));
            return Val::T(x, ty.inner());
        }
        let c = self.tm.is(t, "Ok");
        let er = self.tm.payload(t, "Err", "0");
        let ev = self.tm.mk_struct("Err", vec![("0".into(), er)]);
        let x = self.tm.payload(t, "Ok", "0");
        self.early(st, c, Val::T(ev, Ty::Unk));
        Val::T(x, ty.inner())
    }
    fn looks_option(&self, t: T) -> bool {
        match self.tm.n(t) {
            Node::Struct(n, _) => n == "Some" || n == "None",
            Node::Ite(_, a, b) => self.looks_option(*a) || self.looks_option(*b),
            _ => false,
        }
    }
    /// return v where c is false
    fn early(&mut self, st: &mut State, c: T, v: Val) {
        let s_ok = st.clone();
        let mut s_ret = st.clone();
        self.do_return(&mut s_ret, v);
        *st = self.merge(c, s_ok, s_ret);
    }
    pub fn repeat(&mut self, x: T, n: T) -> T {
        if let Some(k) = self.tm.as_i64(n) {
            if (0..=64).contains(&k) {
                return self.tm.array(vec![x; k as usize]);
            }
        }
        let b = self.tm.empty_seq_base();
        let x1 = self.tm.shift(x, 1);
        let tt = self.tm.tt;
        self.tm.seq(b, vec![crate::term::Item::Gen(vec![n], tt, x1)])
    }
    pub fn block_hint(&mut self, st: &mut State, env: &Env, b: &syn::Block, hint: &Ty) -> Val {
        let v = self.block_to(st, env, b, hint);
        match v {
            Val::T(t, Ty::Unk) => Val::T(t, hint.clone()),
            x => x,
        }
    }
    // ---------- conditionals ----------
    /// evaluates a condition that may bind variables (if-let, let chains);
    /// returns the condition and the environment of the true branch
    pub fn cond(&mut self, st: &mut State, env: &Env, e: &syn::Expr) -> (T, Env) {
        match e {
            syn::Expr::Let(l) => {
                let v = self.scrutinee(st, env, &l.expr, ref_mut(&l.pat));
                let c = self.pat_cond(st, env, &l.pat, &v);
                let mut env2 = env.clone();
                self.bind_pat(st, &mut env2, &l.pat, v);
                (c, env2)
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                let (c1, e1) = self.cond(st, env, &b.left);
                if c1 == self.tm.ff {
                    return (c1, e1);
                }
                let s0 = st.clone();
                let mut s1 = st.clone();
                let (c2, e2) = self.cond(&mut s1, &e1, &b.right);
                *st = self.merge(c1, s1, s0);
                if let Some(r) = self.tm.both_sides(c1, c2, true) {
                    return (r, e2);
                }
                (self.tm.and(c1, c2), e2)
            }
            syn::Expr::Paren(p) => self.cond(st, env, &p.expr),
            _ => (self.expr_t(st, env, e), env.clone()),
        }
    }
    /// value of a matched expression: by place when it is one
    fn scrutinee(&mut self, st: &mut State, env: &Env, e: &syn::Expr, by_ref: bool) -> Val {
        match strip(e) {
            // matched with `ref mut`: the place itself
            syn::Expr::Field(_) | syn::Expr::Index(_) | syn::Expr::Unary(_) if by_ref => {
                if let Some((p, ty)) = self.place(st, env, e) {
                    return Val::Ref(p, ty);
                }
                self.expr(st, env, e)
            }
            syn::Expr::Tuple(t) => {
                let v = t.elems.iter().map(|x| self.scrutinee(st, env, x, by_ref)).collect();
                Val::Tup(v)
            }
            syn::Expr::Reference(r) if r.mutability.is_some() => {
                if let Some((p, ty)) = self.place(st, env, &r.expr) {
                    return Val::Ref(p, ty);
                }
                self.expr(st, env, e)
            }
            syn::Expr::Path(_) => {
                let v = self.expr(st, env, e);
                v
            }
            _ => self.expr(st, env, e),
        }
    }
    fn if_expr(&mut self, st: &mut State, env: &Env, i: &syn::ExprIf, hint: &Ty) -> Val {
        let (c, env1) = self.cond(st, env, &i.cond);
        let c = self.decided(c);
        self.branch(
            st,
            c,
            &mut |s, st| s.block_hint(st, &env1, &i.then_branch, hint),
            &mut |s, st| match &i.else_branch {
                Some((_, e)) => s.expr_hint(st, env, e, hint),
                None => s.unit(),
            },
        )
    }
    /// a condition that the assumptions of a law already decide
    pub fn decided(&mut self, c: T) -> T {
        if self.assumed.is_empty() || c == self.tm.tt || c == self.tm.ff {
            return c;
        }
        if let Node::Ite(p, x, y) = self.tm.n(c).clone() {
            let (p2, x2, y2) = (self.decided(p), self.decided(x), self.decided(y));
            let d = self.tm.ite(p2, x2, y2);
            if d != c {
                return self.decided(d);
            }
        }
        let mut lits: Vec<(T, bool)> = vec![];
        let mut work = self.assumed.clone();
        while let Some(a) = work.pop() {
            match self.tm.n(a).clone() {
                // a conjunction
                Node::Ite(p, x, y) if y == self.tm.ff => work.extend([p, x]),
                // a negation is a condition of its own, decided by the arithmetic
                _ => lits.push((a, true)),
            }
        }
        lits.push((c, true));
        if !crate::lin::consistent(&self.tm, &lits) {
            return self.tm.ff;
        }
        lits.pop();
        lits.push((c, false));
        if !crate::lin::consistent(&self.tm, &lits) {
            return self.tm.tt;
        }
        c
    }
    pub fn branch(
        &mut self,
        st: &mut State,
        c: T,
        f: &mut dyn FnMut(&mut Ev, &mut State) -> Val,
        g: &mut dyn FnMut(&mut Ev, &mut State) -> Val,
    ) -> Val {
        if c == self.tm.tt {
            return f(self, st);
        }
        if c == self.tm.ff {
            return g(self, st);
        }
        let mut s1 = st.clone();
        let mut s2 = st.clone();
        let v1 = f(self, &mut s1);
        let v2 = g(self, &mut s2);
        let d1 = s1.dead || self.left(st, &s1);
        let d2 = s2.dead || self.left(st, &s2);
        // values that are references into the state must be read in their branch
        let (v1, v2) = self.localise(&mut s1, &mut s2, v1, v2, d1, d2);
        *st = self.merge(c, s1, s2);
        if d1 && !d2 {
            return v2;
        }
        if d2 && !d1 {
            return v1;
        }
        self.merge_val(st, c, &v1, &v2)
    }
    fn left(&mut self, before: &State, after: &State) -> bool {
        let a = self.stop(after);
        let b = self.stop(before);
        a == self.tm.tt && b != self.tm.tt
    }
    fn localise(&mut self, s1: &mut State, s2: &mut State, v1: Val, v2: Val, d1: bool, d2: bool) -> (Val, Val) {
        if d1 || d2 {
            return (v1, v2);
        }
        match (&v1, &v2) {
            (Val::Ref(p, _), Val::Ref(q, _)) if p == q => (v1, v2),
            (Val::Ref(p, t), Val::Ref(q, _)) if p.root == q.root && p.proj.len() == q.proj.len() => {
                let _ = t;
                (v1, v2)
            }
            (Val::OptRef(..), _) | (_, Val::OptRef(..)) => (v1, v2),
            (Val::Tup(_), Val::Tup(_)) => (v1, v2),
            _ => {
                let f = |s: &mut Ev, st: &mut State, v: Val| match v {
                    Val::Ref(p, t) => {
                        let x = s.read_deep(st, &p);
                        match x {
                            Val::T(x, Ty::Unk) => Val::T(x, t),
                            y => y,
                        }
                    }
                    x => x,
                };
                let a = f(self, s1, v1);
                let b = f(self, s2, v2);
                (a, b)
            }
        }
    }
    fn match_expr(&mut self, st: &mut State, env: &Env, m: &syn::ExprMatch, hint: &Ty) -> Val {
        let v = self.scrutinee(st, env, &m.expr, m.arms.iter().any(|a| ref_mut(&a.pat)));
        if st.dead {
            return self.unit();
        }
        self.match_arms(st, env, &v, &m.arms, hint)
    }
    fn match_arms(&mut self, st: &mut State, env: &Env, v: &Val, arms: &[syn::Arm], hint: &Ty) -> Val {
        if arms.is_empty() {
            st.dead = true;
            return self.unit();
        }
        let arm = &arms[0];
        let feats = self.prog.features.clone();
        if !crate::load::cfg_ok(&arm.attrs, &feats).0 {
            return self.match_arms(st, env, v, &arms[1..], hint);
        }
        let mut c = self.pat_cond(st, env, &arm.pat, v);
        if c == self.tm.ff {
            return self.match_arms(st, env, v, &arms[1..], hint);
        }
        let mut env1 = env.clone();
        self.bind_pat(st, &mut env1, &arm.pat, v.clone());
        if let Some((_, g)) = &arm.guard {
            let (gc, env2) = self.cond(st, &env1, g);
            env1 = env2;
            c = self.tm.and(c, gc);
        } else if arms.len() == 1 {
            // exhaustive
            c = self.tm.tt;
        }
        self.branch(
            st,
            c,
            &mut |s, st| s.expr_hint(st, &env1, &arm.body, hint),
            &mut |s, st| s.match_arms(st, env, v, &arms[1..], hint),
        )
    }
    // ---------- operators ----------
    fn unary(&mut self, st: &mut State, env: &Env, u: &syn::ExprUnary) -> Val {
        match u.op {
            syn::UnOp::Deref(_) => {
                let v = self.expr(st, env, &u.expr);
                match v {
                    Val::Ref(p, ty) => {
                        let x = self.read(st, &p);
                        match x {
                            Val::T(t, Ty::Unk) => self.deref_val(Val::T(t, ty)),
                            y => self.deref_val(y),
                        }
                    }
                    x => self.deref_val(x),
                }
            }
            syn::UnOp::Not(_) => {
                let v = self.expr(st, env, &u.expr);
                let ty = self.val_ty(&v);
                let t = self.to_t(st, &v);
                if ty == Ty::Int {
                    let r = self.tm.app("bitnot", vec![t]);
                    return Val::T(r, ty);
                }
                let r = self.tm.not(t);
                Val::T(r, Ty::Bool)
            }
            syn::UnOp::Neg(_) => {
                let v = self.expr(st, env, &u.expr);
                let ty = self.val_ty(&v);
                if let Some(r) = self.overload(st, "Neg", "neg", &[v.clone()]) {
                    return r;
                }
                let t = self.to_t(st, &v);
                if let Some(k) = self.vec_dim_of(&ty, t) {
                    let m1 = self.tm.int(-1);
                    let r = self.vec_map(t, k, &mut |s, x| s.tm.mul(x, m1));
                    return Val::T(r, ty);
                }
                let r = self.tm.neg(t);
                Val::T(r, ty)
            }
            _ => self.opaque("unary"),
        }
    }
    /// `*x` of a newtype with Deref
    fn deref_val(&mut self, v: Val) -> Val {
        if let Val::T(t, Ty::Named(n, _)) = &v {
            if let Some(f) = self.deref_field(n) {
                let ty = self.val_ty(&v);
                let fty = self.field_ty(&ty, &f);
                let x = self.tm.field(*t, &f);
                return Val::T(x, fty);
            }
        }
        v
    }
    fn binary_expr(&mut self, st: &mut State, env: &Env, b: &syn::ExprBinary) -> Val {
        use syn::BinOp::*;
        match b.op {
            And(_) => {
                let (c, _) = self.cond(st, env, &syn::Expr::Binary(b.clone()));
                Val::T(c, Ty::Bool)
            }
            Or(_) => {
                let l = self.expr_t(st, env, &b.left);
                if l == self.tm.tt {
                    return Val::T(l, Ty::Bool);
                }
                let s0 = st.clone();
                let mut s1 = st.clone();
                let r = self.expr_t(&mut s1, env, &b.right);
                *st = self.merge(l, s0, s1);
                if let Some(x) = self.tm.both_sides(l, r, false) {
                    return Val::T(x, Ty::Bool);
                }
                Val::T(self.tm.or(l, r), Ty::Bool)
            }
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_)
            | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_) => {
                let op = match b.op {
                    AddAssign(_) => "+",
                    SubAssign(_) => "-",
                    MulAssign(_) => "*",
                    DivAssign(_) => "/",
                    RemAssign(_) => "%",
                    BitAndAssign(_) => "&",
                    BitOrAssign(_) => "|",
                    BitXorAssign(_) => "^",
                    ShlAssign(_) => "<<",
                    _ => ">>",
                };
                let r = self.expr(st, env, &b.right);
                // overloaded compound assignment
                if let Some((p, ty)) = self.place(st, env, &b.left) {
                    let (tr, m) = match op {
                        "+" => ("AddAssign", "add_assign"),
                        "-" => ("SubAssign", "sub_assign"),
                        "*" => ("MulAssign", "mul_assign"),
                        "/" => ("DivAssign", "div_assign"),
                        _ => ("", ""),
                    };
                    if !tr.is_empty() {
                        if let Some(fid) = self.trait_method(&ty, tr, m) {
                            let pr = self.deref_place(st, p);
                            self.call(st, fid, vec![Val::Ref(pr, ty.clone()), r], Some(ty));
                            return self.unit();
                        }
                    }
                }
                let l = self.expr(st, env, &b.left);
                let l = self.value(st, l);
                let nv = self.binop(st, op, l, r);
                self.assign_to(st, env, &b.left, nv);
                self.unit()
            }
            _ => {
                let l = self.expr(st, env, &b.left);
                let l = self.value(st, l);
                let r = self.expr(st, env, &b.right);
                let r = self.value(st, r);
                let op = match b.op {
                    Add(_) => "+",
                    Sub(_) => "-",
                    Mul(_) => "*",
                    Div(_) => "/",
                    Rem(_) => "%",
                    BitAnd(_) => "&",
                    BitOr(_) => "|",
                    BitXor(_) => "^",
                    Shl(_) => "<<",
                    Shr(_) => ">>",
                    Eq(_) => "==",
                    Ne(_) => "!=",
                    Lt(_) => "<",
                    Le(_) => "<=",
                    Gt(_) => ">",
                    Ge(_) => ">=",
                    _ => "?",
                };
                self.binop(st, op, l, r)
            }
        }
    }
    /// read through references
    pub fn value(&mut self, st: &mut State, v: Val) -> Val {
        match v {
            Val::Ref(p, ty) => {
                let x = self.read_deep(st, &p);
                match x {
                    Val::T(t, Ty::Unk) => Val::T(t, ty),
                    y => y,
                }
            }
            x => x,
        }
    }
    pub fn read_deep(&mut self, st: &mut State, p: &Place) -> Val {
        let mut v = self.read(st, p);
        let mut n = 0;
        while let Val::Ref(q, _) = &v {
            v = self.read(st, &q.clone());
            n += 1;
            if n > 20 {
                break;
            }
        }
        v
    }
    pub fn vec_dim(&self, t: &Ty) -> Option<usize> {
        if let Ty::Named(n, a) = t {
            if n == "Quantity" && !a.is_empty() {
                return self.vec_dim(&a[0]);
            }
        }
        let n = t.name()?;
        let n = n.strip_prefix("q_").unwrap_or(n);
        let three = self.prog.features.iter().any(|f| f == "3d");
        match n {
            "DVec2" | "Vec2" | "MVec2" | "Point2d" => Some(2),
            "DVec3" | "Vec3" | "MVec3" | "Point3d" => Some(3),
            "MVec" => Some(if three { 3 } else { 2 }),
            _ => {
                let r = n.strip_prefix("Vec")?;
                if let Some(q) = r.strip_prefix('2') {
                    return q.chars().next().filter(|c| c.is_uppercase()).map(|_| 2);
                }
                if let Some(q) = r.strip_prefix('3') {
                    return q.chars().next().filter(|c| c.is_uppercase()).map(|_| 3);
                }
                match r {
                    "Length" | "Velocity" | "Dimensionless" | "Acceleration" | "Momentum" | "Force" => {
                        Some(if three { 3 } else { 2 })
                    }
                    _ => None,
                }
            }
        }
    }
    pub fn vec_dim_of(&self, ty: &Ty, t: T) -> Option<usize> {
        if let Some(k) = self.vec_dim(ty) {
            return Some(k);
        }
        match self.tm.n(t) {
            Node::Struct(n, fs) if n == "vec" => Some(fs.len()),
            _ => None,
        }
    }
    pub fn comps(&mut self, t: T, k: usize) -> Vec<T> {
        ["x", "y", "z"][..k].iter().map(|f| self.tm.field(t, f)).collect()
    }
    pub fn mk_vec(&mut self, c: Vec<T>) -> T {
        // eta
        let names = ["x", "y", "z"];
        let mut base = None;
        let mut eta = true;
        for (i, x) in c.iter().enumerate() {
            match self.tm.n(*x) {
                Node::Field(b, f) if f == names[i] && (base.is_none() || base == Some(*b)) => base = Some(*b),
                _ => {
                    eta = false;
                    break;
                }
            }
        }
        if eta {
            if let Some(b) = base {
                return b;
            }
        }
        // a linear combination of vectors, written by components
        if let Node::Poly(p) = self.tm.n(c[0]).clone() {
            let one = crate::term::rat(1);
            let mut v = Some(self.tm.zero);
            if p.is_empty() {
                v = None;
            }
            for (m, k) in &p {
                let b = match m.as_slice() {
                    [(a, e)] if *e == one => match self.tm.n(*a) {
                        Node::Field(b, f) if f == "x" => Some(*b),
                        _ => None,
                    },
                    _ => None,
                };
                v = match (v, b) {
                    (Some(v), Some(b)) => {
                        let k = self.tm.num(k.clone());
                        let y = self.tm.mul(k, b);
                        Some(self.tm.add(v, y))
                    }
                    _ => None,
                };
            }
            if let Some(v) = v {
                if matches!(self.tm.n(v), Node::Poly(_)) && c.iter().enumerate().all(|(i, x)| self.tm.field(v, names[i]) == *x) {
                    return v;
                }
            }
        }
        let fs = c.into_iter().enumerate().map(|(i, x)| (names[i].to_string(), x)).collect();
        self.tm.mk_struct("vec", fs)
    }
    pub fn vec_map(&mut self, t: T, k: usize, f: &mut dyn FnMut(&mut Ev, T) -> T) -> T {
        let c = self.comps(t, k);
        let d = c.into_iter().map(|x| f(self, x)).collect();
        self.mk_vec(d)
    }
    pub fn dot(&mut self, a: T, b: T, k: usize) -> T {
        let x = self.comps(a, k);
        let y = self.comps(b, k);
        let mut r = self.tm.zero;
        for (p, q) in x.into_iter().zip(y) {
            let m = self.tm.mul(p, q);
            r = self.tm.add(r, m);
        }
        r
    }
    /// a structure of the repository whose order is derived (field by field)
    pub fn derived_order(&mut self, ty: &Ty) -> bool {
        let Some(n) = ty.name() else { return false };
        let mut it = self.prog.structs.iter().filter(|s| s.name == n);
        match (it.next(), it.next()) {
            (Some(s), None) => {
                let ok = s.derives.iter().any(|d| d == "PartialOrd") && !s.fields.is_empty() && s.generics.is_empty();
                self.consts_read += ok as u32;
                ok
            }
            _ => false,
        }
    }
    pub fn min_or_max(&mut self, name: &str, ty: &Ty, a: T, b: T) -> T {
        if self.derived_order(ty) {
            let less = self.struct_lt(ty, b, a);
            return if name == "min" { self.tm.ite(less, b, a) } else { self.tm.ite(less, a, b) };
        }
        self.tm.app(name, vec![a, b])
    }
    pub fn struct_lt(&mut self, ty: &Ty, a: T, b: T) -> T {
        let n = ty.name().unwrap_or("").to_string();
        let fs: Vec<String> = self.prog.structs.iter().find(|s| s.name == n).map(|s| s.fields.iter().map(|f| f.0.clone()).collect()).unwrap_or_default();
        let mut r = self.tm.ff;
        for f in fs.iter().rev() {
            let x = self.tm.field(a, f);
            let y = self.tm.field(b, f);
            let l = self.tm.lt(x, y);
            let e = self.tm.eq(x, y);
            let rest = self.tm.and(e, r);
            r = self.tm.or(l, rest);
        }
        r
    }
    fn overload(&mut self, st: &mut State, tr: &str, m: &str, args: &[Val]) -> Option<Val> {
        let ty = self.val_ty(&args[0]);
        let fid = self.trait_method(&ty, tr, m)?;
        Some(self.call(st, fid, args.to_vec(), Some(ty)))
    }
    /// repository implementation of a trait method for a type
    pub fn trait_method(&mut self, ty: &Ty, tr: &str, m: &str) -> Option<usize> {
        let n = ty.name()?.to_string();
        let prog = self.prog.clone();
        let c = prog.by_name.get(m)?;
        c.iter()
            .copied()
            .find(|i| {
                let f = &prog.fns[*i];
                !f.in_test && f.trait_.as_deref() == Some(tr) && f.self_name.as_deref() == Some(&n)
            })
    }
    pub fn binop(&mut self, st: &mut State, op: &str, l: Val, r: Val) -> Val {
        let tl = self.val_ty(&l);
        let tr = self.val_ty(&r);
        let (trait_, m) = match op {
            "+" => ("Add", "add"),
            "-" => ("Sub", "sub"),
            "*" => ("Mul", "mul"),
            "/" => ("Div", "div"),
            "%" => ("Rem", "rem"),
            "<" | "<=" | ">" | ">=" => ("", ""),
            "==" | "!=" => ("PartialEq", "eq"),
            _ => ("", ""),
        };
        if !trait_.is_empty() {
            if let Some(v) = self.overload(st, trait_, m, &[l.clone(), r.clone()]) {
                if op == "!=" {
                    let t = self.to_t(st, &v);
                    let n = self.tm.not(t);
                    return Val::T(n, Ty::Bool);
                }
                return v;
            }
        }
        if matches!(op, "<" | "<=" | ">" | ">=") {
            if let Some(fid) = self.trait_method(&tl, "PartialOrd", "partial_cmp") {
                let o = self.call(st, fid, vec![l, r], Some(tl));
                let o = self.to_t(st, &o);
                let (want, neg) = match op {
                    "<" => ("Ordering::Less", false),
                    ">" => ("Ordering::Greater", false),
                    "<=" => ("Ordering::Greater", true),
                    _ => ("Ordering::Less", true),
                };
                let p = self.tm.payload(o, "Some", "0");
                let x = self.tm.is(p, want);
                let x = if neg { self.tm.not(x) } else { x };
                let s = self.tm.is(o, "Some");
                let x = self.tm.and(s, x);
                return Val::T(x, Ty::Bool);
            }
        }
        let a = self.to_t(st, &l);
        let b = self.to_t(st, &r);
        if matches!(op, "<" | "<=" | ">" | ">=") && self.derived_order(&tl) {
            let x = match op {
                "<" => self.struct_lt(&tl, a, b),
                ">" => self.struct_lt(&tl, b, a),
                "<=" => {
                    let x = self.struct_lt(&tl, b, a);
                    self.tm.not(x)
                }
                _ => {
                    let x = self.struct_lt(&tl, a, b);
                    self.tm.not(x)
                }
            };
            return Val::T(x, Ty::Bool);
        }
        if matches!(op, "==" | "!=") {
            // enumerations without payload
            if let Some(n) = tl.name().or(tr.name()) {
                let vs: Option<Vec<String>> = self
                    .prog
                    .enums
                    .iter()
                    .find(|e| e.name == n)
                    .filter(|e| e.variants.len() <= 8 && e.variants.iter().all(|v| v.1.is_empty()))
                    .map(|e| e.variants.iter().map(|v| format!("{n}::{}", v.0)).collect());
                if let Some(vs) = vs {
                    let mut r = self.tm.ff;
                    for v in vs {
                        let x = self.tm.is(a, &v);
                        let y = self.tm.is(b, &v);
                        let e = self.tm.and(x, y);
                        r = self.tm.or(r, e);
                    }
                    let r = if op == "!=" { self.tm.not(r) } else { r };
                    return Val::T(r, Ty::Bool);
                }
            }
        }
        let int = tl == Ty::Int || tr == Ty::Int;
        let va = self.vec_dim_of(&tl, a);
        let vb = self.vec_dim_of(&tr, b);
        if matches!(op, "+" | "-" | "*" | "/") && (va.is_some() || vb.is_some()) {
            let k = va.or(vb).unwrap();
            let ca = if va.is_some() { self.comps(a, k) } else { vec![a; k] };
            let cb = if vb.is_some() { self.comps(b, k) } else { vec![b; k] };
            let mut out = vec![];
            for (x, y) in ca.into_iter().zip(cb) {
                out.push(self.arith(op, x, y, false));
            }
            let r = self.mk_vec(out);
            let ty = match op {
                "+" | "-" => {
                    if tl == Ty::Unk {
                        tr
                    } else {
                        tl
                    }
                }
                _ => {
                    if k == 3 {
                        Ty::Named("DVec3".into(), vec![])
                    } else {
                        Ty::Named("DVec2".into(), vec![])
                    }
                }
            };
            return Val::T(r, ty);
        }
        if int && tl != Ty::Float && tr != Ty::Float && !matches!(op, "<<" | ">>") {
            self.tm.mark_int(a);
            self.tm.mark_int(b);
        }
        if int && tl != Ty::Float && tr != Ty::Float && matches!(op, "<" | "<=" | ">" | ">=") {
            // counts: x > 0 is x != 0, x < 1 is x == 0
            let (x, y, strict) = match op {
                "<" => (a, b, true),
                ">" => (b, a, true),
                "<=" => (a, b, false),
                _ => (b, a, false),
            };
            let (nx, ny) = (self.tm.as_i64(x), self.tm.as_i64(y));
            let z = self.tm.zero;
            let e = match (nx, ny, strict) {
                (Some(0), None, true) | (Some(1), None, false) => Some((y, false)),
                (None, Some(1), true) | (None, Some(0), false) => Some((x, true)),
                _ => None,
            };
            if let Some((t, is)) = e {
                let r = self.tm.eq(t, z);
                let r = if is { r } else { self.tm.not(r) };
                return Val::T(r, Ty::Bool);
            }
        }
        match op {
            "+" | "-" | "*" | "/" | "%" => {
                let r = self.arith(op, a, b, int);
                if int && matches!(op, "/" | "%") {
                    self.tm.mark_int(r);
                }
                let ty = if int {
                    Ty::Int
                } else if tl == Ty::Float && tr == Ty::Float {
                    Ty::Float
                } else if op == "+" || op == "-" {
                    if tl == Ty::Unk {
                        tr
                    } else {
                        tl
                    }
                } else {
                    Ty::Unk
                };
                Val::T(r, ty)
            }
            "&" | "|" | "^" => {
                if self.tm.is_bool(a) || self.tm.is_bool(b) || tl == Ty::Bool {
                    let r = match op {
                        "&" => self.tm.and(a, b),
                        "|" => self.tm.or(a, b),
                        _ => {
                            let nb = self.tm.not(b);
                            self.tm.ite(a, nb, b)
                        }
                    };
                    return Val::T(r, Ty::Bool);
                }
                let r = match op {
                    "&" => self.bitand(a, b),
                    "|" => self.bitor(a, b),
                    _ => self.tm.app("bitxor", vec![a, b]),
                };
                Val::T(r, Ty::Int)
            }
            "<<" => {
                let two = self.tm.int(2);
                let p = self.tm.app("pow", vec![two, b]);
                Val::T(self.tm.mul(a, p), Ty::Int)
            }
            ">>" => {
                let two = self.tm.int(2);
                let p = self.tm.app("pow", vec![two, b]);
                Val::T(self.tm.app("idiv", vec![a, p]), Ty::Int)
            }
            "==" => Val::T(self.tm.eq(a, b), Ty::Bool),
            "!=" => {
                let e = self.tm.eq(a, b);
                Val::T(self.tm.not(e), Ty::Bool)
            }
            "<" => Val::T(self.tm.lt(a, b), Ty::Bool),
            ">" => Val::T(self.tm.lt(b, a), Ty::Bool),
            "<=" => Val::T(self.tm.le(a, b), Ty::Bool),
            ">=" => Val::T(self.tm.le(b, a), Ty::Bool),
            _ => self.opaque("operator"),
        }
    }
    /// x & (2^k - 1) == x % 2^k for the unsigned values used here
    fn bitand(&mut self, a: T, b: T) -> T {
        for (x, y) in [(a, b), (b, a)] {
            if let Some(m) = self.tm.as_i64(y) {
                if self.tm.as_i64(x).is_none() && m > 0 && (m & (m + 1)) == 0 {
                    let k = self.tm.int(m + 1);
                    return self.tm.app("rem", vec![x, k]);
                }
            }
        }
        self.tm.app("bitand", vec![a, b])
    }
    /// disjoint bits: (x * 2^k) | c with 0 <= c < 2^k
    fn bitor(&mut self, a: T, b: T) -> T {
        if a == self.tm.zero {
            return b;
        }
        if b == self.tm.zero {
            return a;
        }
        // the multiple of a power of two leaves room for the other
        for (x, y) in [(a, b), (b, a)] {
            let hi = match self.upper(y) {
                Some(h) => h,
                None => continue,
            };
            let fits = match self.tm.n(x) {
                Node::Poly(ms) => ms.iter().all(|(m, c)| {
                    let ints = m.iter().all(|(t, e)| self.tm.is_int(*t) && e.is_integer() && !num_traits::Signed::is_negative(e));
                    let k = c.to_integer();
                    let k: i64 = num_traits::ToPrimitive::to_i64(&k).unwrap_or(0);
                    ints && c.is_integer() && k > hi && (k & (k - 1)) % (hi + 1) == 0 && k % (hi + 1) == 0
                }),
                _ => false,
            };
            if fits {
                return self.tm.add(x, y);
            }
        }
        self.tm.app("bitor", vec![a, b])
    }
    /// largest value of an entry of a constant table, rounded up to 2^k - 1
    fn upper(&self, t: T) -> Option<i64> {
        match self.tm.n(t) {
            Node::Index(a, _) => self.upper(*a),
            Node::Path(p) => self.table_max.get(p).copied().map(|m| {
                let mut k = 1;
                while k <= m {
                    k *= 2;
                }
                k - 1
            }),
            Node::Ite(_, x, y) => Some(self.upper(*x)?.max(self.upper(*y)?)),
            Node::Poly(_) => {
                let m = self.tm.as_i64(t)?;
                if m < 0 {
                    return None;
                }
                let mut k = 1;
                while k <= m {
                    k *= 2;
                }
                Some(k - 1)
            }
            _ => None,
        }
    }
    fn fits(&self, t: T) -> bool {
        match self.tm.n(t) {
            Node::Ite(_, x, y) => self.fits(*x) && self.fits(*y),
            _ => self.upper(t).map_or(false, |m| m < 128),
        }
    }
    pub fn arith(&mut self, op: &str, a: T, b: T, int: bool) -> T {
        match op {
            "+" => self.tm.add(a, b),
            "-" => self.tm.sub(a, b),
            "*" => self.tm.mul(a, b),
            "/" => {
                if int {
                    self.tm.app("idiv", vec![a, b])
                } else {
                    self.tm.div(a, b)
                }
            }
            _ => self.tm.app("rem", vec![a, b]),
        }
    }
    // ---------- structs ----------
    fn struct_lit(&mut self, st: &mut State, env: &Env, s: &syn::ExprStruct, hint: &Ty) -> Val {
        let segs = path_segs(&s.path);
        let var = self.variant_of(env, &segs);
        let ctx = env.ctx.clone();
        let (name, ty) = match &var {
            Some(v) => (v.clone(), Ty::Named(v.split("::").next().unwrap().to_string(), vec![])),
            None => {
                let tp = syn::Type::Path(syn::TypePath { qself: None, path: s.path.clone() });
                let t = self.ty(&tp, &ctx);
                (t.name().unwrap_or(segs.last().unwrap()).to_string(), t)
            }
        };
        // the type arguments of the literal are those of the expected type
        let ty = match (&ty, hint, &ctx.self_ty) {
            (Ty::Named(n, a), Ty::Named(m, b), _) | (Ty::Named(n, a), _, Ty::Named(m, b)) if n == m && a.is_empty() => Ty::Named(n.clone(), b.clone()),
            _ => ty,
        };
        let mut fs: Vec<(String, T)> = vec![];
        for f in &s.fields {
            let n = match &f.member {
                syn::Member::Named(i) => i.to_string(),
                syn::Member::Unnamed(i) => i.index.to_string(),
            };
            let h = self.field_ty(&ty, &n);
            let v = self.expr_hint(st, env, &f.expr, &h);
            let t = self.to_t(st, &v);
            fs.push((n, t));
        }
        if let Some(r) = &s.rest {
            let base = self.expr(st, env, r);
            let mut b = self.to_t(st, &base);
            for (n, v) in fs {
                b = self.tm.with(b, &n, v);
            }
            return Val::T(b, ty);
        }
        let t = self.struct_eta(&name, fs);
        Val::T(t, ty)
    }
    /// S{a: x.a, b: x.b, ..} with every field of S is x itself
    pub fn struct_eta(&mut self, name: &str, fs: Vec<(String, T)>) -> T {
        if let Some(s) = self.prog.structs.iter().find(|s| s.name == name) {
            if s.fields.len() == fs.len() && !fs.is_empty() {
                let mut base = None;
                let mut ok = true;
                for (n, t) in &fs {
                    match self.tm.n(*t) {
                        Node::Field(b, f) if f == n && (base.is_none() || base == Some(*b)) => base = Some(*b),
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    return base.unwrap();
                }
            }
        }
        self.tm.mk_struct(name, fs)
    }
}

/// does the pattern bind anything by `ref mut`?
fn ref_mut(p: &syn::Pat) -> bool {
    struct F(bool);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            self.0 |= i.by_ref.is_some() && i.mutability.is_some();
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut f = F(false);
    syn::visit::Visit::visit_pat(&mut f, p);
    f.0
}
