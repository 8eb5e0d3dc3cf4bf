//! Iterators: lazy adaptors, driven through the loop core.
use crate::eval::*;
use crate::term::{Item, Node, T};
use crate::val::*;

pub type Step<'a> = &'a mut dyn FnMut(&mut Ev, &mut State, Option<T>, Val);

impl Ev {
    pub fn into_iter(&mut self, st: &mut State, v: Val) -> It {
        match v {
            Val::It(it) => *it,
            Val::Ref(p, ty) => {
                let cur = self.read(st, &p);
                match cur {
                    Val::It(it) => return *it,
                    Val::Ref(..) => return self.into_iter(st, cur),
                    _ => {}
                }
                let ty = if ty == Ty::Unk { self.val_ty(&cur) } else { ty };
                match &ty {
                    Ty::Named(n, a) if n == "HashMap" || n == "BTreeMap" => It::EntriesMut(
                        p,
                        a.first().cloned().unwrap_or(Ty::Unk),
                        a.get(1).cloned().unwrap_or(Ty::Unk),
                        false,
                    ),
                    Ty::Named(n, _) => {
                        if let Some(f) = self.deref_field(n) {
                            let fty = self.field_ty(&ty, &f);
                            return self.into_iter(st, Val::Ref(p.f(&f), fty));
                        }
                        It::ElemsMut(p, ty.elem())
                    }
                    _ => It::ElemsMut(p, ty.elem()),
                }
            }
            Val::T(t, ty) => {
                if let Ty::Named(n, a) = &ty {
                    if n == "Iter" {
                        return It::Elems(t, a.first().cloned().unwrap_or(Ty::Unk));
                    }
                    if n == "HashMap" || n == "BTreeMap" {
                        let e = self.tm.app("entries", vec![t]);
                        let ety = Ty::Tuple(vec![a.first().cloned().unwrap_or(Ty::Unk), a.get(1).cloned().unwrap_or(Ty::Unk)]);
                        return It::Elems(e, ety);
                    }
                    if let Some(fid) = self.trait_method(&ty, "IntoIterator", "into_iter") {
                        let r = self.call(st, fid, vec![Val::T(t, ty.clone())], Some(ty.clone()));
                        if let Val::It(it) = r {
                            return *it;
                        }
                        let rt = self.val_ty(&r);
                        let rn = rt.name().map(|x| x.to_string());
                        if rn.as_deref() != Some(n.as_str()) {
                            // a hand-written iterator type keeps its own identity
                            if self.trait_method(&rt, "Iterator", "next").is_none() {
                                return self.into_iter(st, r);
                            }
                        }
                        let x = self.to_t(st, &r);
                        return It::Elems(x, Ty::Unk);
                    }
                    if let Some(f) = self.deref_field(n) {
                        let fty = self.field_ty(&ty, &f);
                        let x = self.tm.field(t, &f);
                        return self.into_iter(st, Val::T(x, fty));
                    }
                }
                if let Ty::Opt(i) = &ty {
                    return It::Flatten(Box::new(It::Items(vec![Val::T(t, Ty::Opt(i.clone()))])));
                }
                It::Elems(t, ty.elem())
            }
            Val::Tup(_) | Val::OptRef(..) => It::Flatten(Box::new(It::Items(vec![v]))),
            _ => {
                let o = self.tm.opaque("into_iter");
                It::Elems(o, Ty::Unk)
            }
        }
    }
    pub fn count_of(&mut self, st: &mut State, it: &It) -> Option<T> {
        Some(match it {
            It::Range(_, n, _) => *n,
            It::RangeFrom(..) | It::Cycle(_) => self.tm.path("inf"),
            It::Elems(t, _) | It::Drain(t, _) => {
                if !self.plain(*t) {
                    return None;
                }
                self.tm.len(*t)
            }
            It::ElemsMut(p, _) => {
                let v = self.read_deep(st, p);
                let t = self.to_t(st, &v);
                self.tm.len(t)
            }
            It::EntriesMut(p, _, _, _) => {
                let v = self.read_deep(st, p);
                let t = self.to_t(st, &v);
                let k = self.tm.app("keys", vec![t]);
                self.tm.len(k)
            }
            It::Items(v) => self.tm.int(v.len() as i64),
            It::Map(a, _) | It::Enumerate(a) | It::Rev(a) | It::Inspect(a, _) => self.count_of(st, a)?,
            It::Zip(a, b) => {
                let x = self.count_of(st, a)?;
                let y = self.count_of(st, b)?;
                let inf = self.tm.path("inf");
                if x == inf {
                    y
                } else if y == inf {
                    x
                } else {
                    self.tm.app("min", vec![x, y])
                }
            }
            It::Skip(a, n) => {
                let x = self.count_of(st, a)?;
                self.tm.sub(x, *n)
            }
            It::Take(a, n) => {
                let x = self.count_of(st, a)?;
                let inf = self.tm.path("inf");
                if x == inf {
                    *n
                } else {
                    self.tm.app("min", vec![x, *n])
                }
            }
            It::StepBy(a, n) => {
                let x = self.count_of(st, a)?;
                self.tm.app("ceil_div", vec![x, *n])
            }
            It::Windows(t, n, _) => {
                let l = self.tm.len(*t);
                let d = self.tm.sub(l, *n);
                let o = self.tm.one;
                self.tm.add(d, o)
            }
            It::Chunks(t, n, _) => {
                let l = self.tm.len(*t);
                self.tm.app("ceil_div", vec![l, *n])
            }
            _ => return None,
        })
    }
    /// containers that can be indexed without losing structure
    fn plain(&mut self, t: T) -> bool {
        match self.tm.n(t).clone() {
            Node::Seq(_, items) => items.len() == 1 && matches!(&items[0], Item::Gen(c, g, _) if c.len() == 1 && *g == self.tm.tt) && {
                let e = self.tm.empty_seq_base();
                matches!(self.tm.n(t), Node::Seq(b, _) if *b == e)
            },
            Node::Ite(..) => false,
            _ => true,
        }
    }
    pub fn elem_at(&mut self, st: &mut State, it: &It, i: T) -> Val {
        match it {
            It::Range(lo, _, ty) => Val::T(self.tm.add(*lo, i), ty.clone()),
            It::RangeFrom(lo, ty) => Val::T(self.tm.add(*lo, i), ty.clone()),
            It::Elems(t, ty) | It::Drain(t, ty) => Val::T(self.tm.index(*t, i), ty.clone()),
            It::ElemsMut(p, ty) => Val::Ref(p.i(i), ty.clone()),
            It::EntriesMut(p, kt, vt, only) => {
                let v = self.read_deep(st, p);
                let t = self.to_t(st, &v);
                let ks = self.tm.app("keys", vec![t]);
                let k = self.tm.index(ks, i);
                let r = Val::Ref(p.i(k), vt.clone());
                if *only {
                    r
                } else {
                    Val::Tup(vec![Val::T(k, kt.clone()), r])
                }
            }
            It::Items(v) => match self.tm.as_i64(i) {
                Some(k) if k >= 0 && (k as usize) < v.len() => v[k as usize].clone(),
                _ => {
                    let ts = v.iter().map(|x| self.to_t(st, x)).collect();
                    let a = self.tm.array(ts);
                    Val::T(self.tm.index(a, i), Ty::Unk)
                }
            },
            It::Map(a, f) => {
                let x = self.elem_at(st, a, i);
                self.apply(st, f, vec![x])
            }
            It::Inspect(a, f) => {
                let x = self.elem_at(st, a, i);
                self.apply(st, f, vec![x.clone()]);
                x
            }
            It::Enumerate(a) => {
                let x = self.elem_at(st, a, i);
                Val::Tup(vec![Val::T(i, Ty::Int), x])
            }
            It::Rev(a) => {
                let n = self.count_of(st, a).unwrap();
                let o = self.tm.one;
                let k = self.tm.sub(n, o);
                let k = self.tm.sub(k, i);
                self.elem_at(st, a, k)
            }
            It::Zip(a, b) => {
                let x = self.elem_at(st, a, i);
                let y = self.elem_at(st, b, i);
                Val::Tup(vec![x, y])
            }
            It::Skip(a, n) => {
                let k = self.tm.add(i, *n);
                self.elem_at(st, a, k)
            }
            It::Take(a, _) => self.elem_at(st, a, i),
            It::StepBy(a, n) => {
                let k = self.tm.mul(i, *n);
                self.elem_at(st, a, k)
            }
            It::Windows(t, n, ty) => {
                let hi = self.tm.add(i, *n);
                let s = self.slice(*t, i, hi);
                Val::T(s, Ty::arr((ty.clone())))
            }
            It::Chunks(t, n, ty) => {
                let r = self.tm.app("chunk", vec![*t, *n, i]);
                Val::T(r, Ty::arr((ty.clone())))
            }
            It::Cycle(a) => {
                let n = self.count_of(st, a);
                match n {
                    Some(n) => {
                        let k = self.tm.app("rem", vec![i, n]);
                        self.elem_at(st, a, k)
                    }
                    None => self.opaque("cycle"),
                }
            }
            _ => self.opaque("element of a non-indexable iterator"),
        }
    }
    pub fn guarded(&mut self, st: &mut State, c: T, f: &mut dyn FnMut(&mut Ev, &mut State)) {
        self.branch(
            st,
            c,
            &mut |s, st| {
                f(s, st);
                s.unit()
            },
            &mut |s, _| s.unit(),
        );
    }
    fn drive_items(&mut self, st: &mut State, items: &[Item], ty: &Ty, env: &[T], f: Step) {
        // env: values of the enclosing binders, innermost first
        if items.is_empty() {
            return;
        }
        match items[0].clone() {
            Item::One(g, v) => {
                let g = self.tm.open_n(g, env);
                let v = self.tm.open_n(v, env);
                self.guarded(st, g, &mut |s, st| f(s, st, None, Val::T(v, ty.clone())));
            }
            Item::Splice(g, v) => {
                let g = self.tm.open_n(g, env);
                let v = self.tm.open_n(v, env);
                self.guarded(st, g, &mut |s, st| s.drive(st, &It::Elems(v, ty.clone()), f));
            }
            Item::Gen(cs, g, v) => {
                self.drive_gen(st, &cs, g, v, ty, env.to_vec(), f);
            }
            Item::Loop(c, v) => {
                let c = self.tm.open_n(c, env);
                self.run_loop(st, Some(c), &mut |s, st, i| {
                    let mut e = vec![i];
                    e.extend_from_slice(env);
                    s.drive_items(st, &v, ty, &e, f);
                });
            }
        }
        let stop = self.tm.or(st.ret, st.brk);
        self.unroll_rest(st, stop, &mut |s, st| s.drive_items(st, &items[1..], ty, env, f));
    }
    #[allow(clippy::too_many_arguments)]
    fn drive_gen(&mut self, st: &mut State, cs: &[T], g: T, v: T, ty: &Ty, env: Vec<T>, f: Step) {
        if cs.is_empty() {
            let g = self.tm.open_n(g, &env);
            let v = self.tm.open_n(v, &env);
            self.guarded(st, g, &mut |s, st| f(s, st, None, Val::T(v, ty.clone())));
            return;
        }
        let c = self.tm.open_n(cs[0], &env);
        self.run_loop(st, Some(c), &mut |s, st, i| {
            let mut e = vec![i];
            e.extend_from_slice(&env);
            s.drive_gen(st, &cs[1..], g, v, ty, e, f);
        });
    }
    pub fn drive(&mut self, st: &mut State, it: &It, f: Step) {
        if st.dead {
            return;
        }
        match it {
            It::Elems(t, ty) | It::Drain(t, ty) if !self.plain(*t) => match self.tm.n(*t).clone() {
                Node::Ite(c, a, b) => {
                    let (i1, i2) = (It::Elems(a, ty.clone()), It::Elems(b, ty.clone()));
                    // two copies of the loop
                    let mut s1 = st.clone();
                    let mut s2 = st.clone();
                    self.drive(&mut s1, &i1, f);
                    self.drive(&mut s2, &i2, f);
                    *st = self.merge(c, s1, s2);
                }
                Node::Seq(b, items) => {
                    let e = self.tm.empty_seq_base();
                    if b != e {
                        self.drive(st, &It::Elems(b, ty.clone()), f);
                        let stop = self.tm.or(st.ret, st.brk);
                        self.unroll_rest(st, stop, &mut |s, st| s.drive_items(st, &items, ty, &[], f));
                    } else {
                        self.drive_items(st, &items, ty, &[], f);
                    }
                }
                _ => unreachable!(),
            },
            It::Items(v) => {
                let n = v.len() as i64;
                self.unroll(st, 0, n, &mut |s, st, i| {
                    let k = s.tm.as_i64(i).unwrap() as usize;
                    f(s, st, Some(i), v[k].clone());
                });
            }
            It::Map(a, g) if self.count_of(st, it).is_none() => {
                self.drive(st, a, &mut |s, st, i, x| {
                    let y = s.apply(st, g, vec![x]);
                    f(s, st, i, y);
                });
            }
            It::Inspect(a, g) if self.count_of(st, it).is_none() => {
                self.drive(st, a, &mut |s, st, i, x| {
                    s.apply(st, g, vec![x.clone()]);
                    f(s, st, i, x);
                });
            }
            It::Filter(a, g) => {
                self.drive(st, a, &mut |s, st, _, x| {
                    let c = s.apply(st, g, vec![x.clone()]);
                    let c = s.to_t(st, &c);
                    s.guarded(st, c, &mut |s, st| f(s, st, None, x.clone()));
                });
            }
            It::FilterMap(a, g) => {
                self.drive(st, a, &mut |s, st, _, x| {
                    let o = s.apply(st, g, vec![x]);
                    s.if_some(st, o, &mut |s, st, y| f(s, st, None, y));
                });
            }
            It::FlatMap(a, g) => {
                self.drive(st, a, &mut |s, st, _, x| {
                    let o = s.apply(st, g, vec![x]);
                    s.drive_val(st, o, f);
                });
            }
            It::Flatten(a) => {
                self.drive(st, a, &mut |s, st, _, x| {
                    s.drive_val(st, x, f);
                });
            }
            It::Enumerate(a) if self.count_of(st, it).is_none() => {
                let z = self.tm.zero;
                let r = self.alloc(st, Val::T(z, Ty::Int));
                self.drive(st, a, &mut |s, st, _, x| {
                    let k = s.read_root(st, r);
                    let kt = s.to_t(st, &k);
                    f(s, st, None, Val::Tup(vec![k, x]));
                    let o = s.tm.one;
                    let k2 = s.tm.add(kt, o);
                    s.write(st, &Place::root(r), Val::T(k2, Ty::Int));
                });
            }
            It::Chain(a, b) => {
                self.drive(st, a, f);
                let stop = self.tm.or(st.ret, st.brk);
                self.unroll_rest(st, stop, &mut |s, st| s.drive(st, b, f));
            }
            It::TakeWhile(a, g) => {
                self.drive(st, a, &mut |s, st, i, x| {
                    let c = s.apply(st, g, vec![x.clone()]);
                    let c = s.to_t(st, &c);
                    s.branch(
                        st,
                        c,
                        &mut |s, st| {
                            f(s, st, i, x.clone());
                            s.unit()
                        },
                        &mut |s, st| {
                            st.brk = s.tm.tt;
                            s.unit()
                        },
                    );
                });
            }
            _ => {
                if let Some(n) = self.count_of(st, it) {
                    let inf = self.tm.path("inf");
                    let c = if n == inf { None } else { Some(n) };
                    self.run_loop(st, c, &mut |s, st, i| {
                        let x = s.elem_at(st, it, i);
                        f(s, st, Some(i), x);
                    });
                    return;
                }
                // materialise
                let t = match it {
                    It::Rev(a) => {
                        let x = self.reify(st, a);
                        self.rev_seq(x)
                    }
                    It::Zip(a, b) => {
                        let x = self.simple_it(st, a);
                        let y = self.simple_it(st, b);
                        let z = It::Zip(Box::new(x), Box::new(y));
                        return self.drive(st, &z, f);
                    }
                    It::Skip(a, n) => {
                        let x = self.reify(st, a);
                        self.tm.app("skip", vec![x, *n])
                    }
                    It::Take(a, n) => {
                        let x = self.reify(st, a);
                        self.tm.app("take", vec![x, *n])
                    }
                    It::StepBy(a, n) => {
                        let x = self.reify(st, a);
                        self.tm.app("step_by", vec![x, *n])
                    }
                    _ => self.tm.opaque("iterator"),
                };
                self.drive(st, &It::Elems(t, Ty::Unk), f);
            }
        }
    }
    fn simple_it(&mut self, st: &mut State, a: &It) -> It {
        if self.count_of(st, a).is_some() {
            return a.clone();
        }
        let t = self.reify(st, a);
        if self.plain(t) {
            return It::Elems(t, Ty::Unk);
        }
        // keep it whole
        let w = self.tm.mk(Node::App("whole".into(), vec![t]));
        It::Elems(w, Ty::Unk)
    }
    fn rev_seq(&mut self, t: T) -> T {
        match self.tm.n(t).clone() {
            Node::Array(mut v) => {
                v.reverse();
                self.tm.array(v)
            }
            _ => self.tm.app("rev", vec![t]),
        }
    }
    fn drive_val(&mut self, st: &mut State, v: Val, f: Step) {
        let v = match v {
            Val::T(t, ty) => {
                if matches!(ty, Ty::Opt(_)) || self.is_opt(t) {
                    let ity = ty.inner();
                    let c = self.tm.is(t, "Some");
                    let x = self.tm.payload(t, "Some", "0");
                    return self.guarded(st, c, &mut |s, st| f(s, st, None, Val::T(x, ity.clone())));
                }
                if matches!(ty, Ty::Res(..)) {
                    let ity = ty.inner();
                    let c = self.tm.is(t, "Ok");
                    let x = self.tm.payload(t, "Ok", "0");
                    return self.guarded(st, c, &mut |s, st| f(s, st, None, Val::T(x, ity.clone())));
                }
                Val::T(t, ty)
            }
            Val::OptRef(c, p, t) => {
                return self.guarded(st, c, &mut |s, st| f(s, st, None, Val::Ref(p.clone(), t.clone())));
            }
            x => x,
        };
        let it = self.into_iter(st, v);
        self.drive(st, &it, f);
    }
    pub fn is_opt(&self, t: T) -> bool {
        match self.tm.n(t) {
            Node::Struct(n, _) => n == "Some" || n == "None",
            Node::Ite(_, a, b) => self.is_opt(*a) || self.is_opt(*b),
            _ => false,
        }
    }
    pub fn if_some(&mut self, st: &mut State, o: Val, f: &mut dyn FnMut(&mut Ev, &mut State, Val)) {
        match o {
            Val::OptRef(c, p, t) => {
                self.guarded(st, c, &mut |s, st| f(s, st, Val::Ref(p.clone(), t.clone())));
            }
            _ => {
                let ity = self.val_ty(&o).inner();
                let t = self.to_t(st, &o);
                let c = self.tm.is(t, "Some");
                let x = self.tm.payload(t, "Some", "0");
                self.guarded(st, c, &mut |s, st| f(s, st, Val::T(x, ity.clone())));
            }
        }
    }
    /// the iterator as a sequence value (side effects of closures are dropped)
    pub fn reify(&mut self, st: &mut State, it: &It) -> T {
        match it {
            It::Elems(t, _) | It::Drain(t, _) => return *t,
            It::ElemsMut(p, _) => {
                let v = self.read_deep(st, p);
                return self.to_t(st, &v);
            }
            _ => {}
        }
        let mut s2 = st.clone();
        self.collect_seq(&mut s2, it).0
    }
    /// runs the iterator, collecting its elements
    pub fn collect_seq(&mut self, st: &mut State, it: &It) -> (T, Ty) {
        if let It::Elems(t, ty) | It::Drain(t, ty) = it {
            return (*t, ty.clone());
        }
        let e = self.tm.empty_seq();
        let r = self.alloc(st, Val::T(e, Ty::Unk));
        let mut ety = Ty::Unk;
        self.consume(st, it, &mut |s, st, _, x| {
            let ty = s.val_ty(&x);
            if ety == Ty::Unk {
                ety = ty;
            }
            let x = s.value(st, x);
            let x = s.to_t(st, &x);
            let cur = s.read_root(st, r);
            let cur = s.to_t(st, &cur);
            let n = s.tm.push(cur, x);
            s.write(st, &Place::root(r), Val::T(n, Ty::Unk));
        });
        let v = self.read_root(st, r);
        (self.to_t(st, &v), ety)
    }
    /// drive as a complete loop of its own
    pub fn consume(&mut self, st: &mut State, it: &It, f: Step) {
        let base = self.stop(st);
        let saved = (st.brk, st.cont, st.base, st.brkval.take());
        st.base = base;
        st.brk = self.tm.ff;
        st.cont = self.tm.ff;
        self.drive(st, it, f);
        st.brk = saved.0;
        st.cont = saved.1;
        st.base = saved.2;
        st.brkval = saved.3;
    }
    /// accumulate over an iterator
    pub fn accumulate(
        &mut self,
        st: &mut State,
        it: &It,
        init: Val,
        f: &mut dyn FnMut(&mut Ev, &mut State, Val, Val) -> Val,
    ) -> Val {
        let r = self.alloc(st, init);
        self.consume(st, it, &mut |s, st, _, x| {
            let cur = s.read_root(st, r);
            let n = f(s, st, cur, x);
            s.write(st, &Place::root(r), n);
        });
        self.read_root(st, r)
    }
}
