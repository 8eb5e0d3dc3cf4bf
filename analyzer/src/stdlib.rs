//! Iterator methods and standard-library functions.
use crate::eval::*;
use crate::term::{Node, T};
use crate::val::*;
use std::rc::Rc;

impl Ev {
    pub fn bx(it: It) -> Val {
        Val::It(Box::new(it))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn iter_method(&mut self, st: &mut State, env: &Env, it: It, place: Option<Place>, name: &str, args: Vec<Val>, hint: &Ty) -> Val {
        let b = |x: It| Box::new(x);
        let mut args = args;
        let arg = |s: &mut Ev, st: &mut State, a: &Val| -> T {
            let v = s.value(st, a.clone());
            s.to_t(st, &v)
        };
        match (name, args.len()) {
            ("iter" | "into_iter" | "par_iter" | "into_par_iter" | "cloned" | "copied" | "iter_mut" | "fuse" | "peekable" | "clone", 0) => {
                if matches!(name, "cloned" | "copied") {
                    // reading through references: elements by value
                    let t = match &it {
                        It::ElemsMut(p, ty) => {
                            let v = self.read_deep(st, p);
                            let x = self.to_t(st, &v);
                            It::Elems(x, ty.clone())
                        }
                        _ => it.clone(),
                    };
                    return Self::bx(t);
                }
                return Self::bx(it);
            }
            ("by_ref", 0) => {
                if let Some(p) = place {
                    return Val::Ref(p, Ty::Unk);
                }
                return Self::bx(it);
            }
            ("map", 1) => return Self::bx(It::Map(b(it), Box::new(args.remove(0)))),
            ("filter", 1) => return Self::bx(It::Filter(b(it), Box::new(args.remove(0)))),
            ("filter_map", 1) => return Self::bx(It::FilterMap(b(it), Box::new(args.remove(0)))),
            ("flat_map", 1) => return Self::bx(It::FlatMap(b(it), Box::new(args.remove(0)))),
            ("flatten", 0) => return Self::bx(It::Flatten(b(it))),
            ("enumerate", 0) => return Self::bx(It::Enumerate(b(it))),
            ("rev", 0) => return Self::bx(It::Rev(b(it))),
            ("cycle", 0) => return Self::bx(It::Cycle(b(it))),
            ("inspect", 1) => return Self::bx(It::Inspect(b(it), Box::new(args.remove(0)))),
            ("take_while", 1) => return Self::bx(It::TakeWhile(b(it), Box::new(args.remove(0)))),
            ("zip", 1) => {
                let a = args.remove(0);
                let o = self.into_iter(st, a);
                return Self::bx(It::Zip(b(it), b(o)));
            }
            ("chain", 1) => {
                let a = args.remove(0);
                let o = self.into_iter(st, a);
                return Self::bx(It::Chain(b(it), b(o)));
            }
            ("skip", 1) => {
                let n = arg(self, st, &args[0]);
                return Self::bx(It::Skip(b(it), n));
            }
            ("take", 1) => {
                let n = arg(self, st, &args[0]);
                return Self::bx(It::Take(b(it), n));
            }
            ("step_by", 1) => {
                let n = arg(self, st, &args[0]);
                return Self::bx(It::StepBy(b(it), n));
            }
            _ => {}
        }
        // a consumed iterator held in a variable is left exhausted
        match (name, args.len()) {
            ("sum", 0) => self.sum_it(st, &it, hint),
            ("product", 0) => {
                let one = self.tm.one;
                self.accumulate(st, &it, Val::T(one, hint.clone()), &mut |s, st, a, x| {
                    let x = s.value(st, x);
                    s.binop(st, "*", a, x)
                })
            }
            ("count" | "len", 0) => {
                let n = match self.count_of(st, &it) {
                    Some(n) => n,
                    None => {
                        let z = self.tm.zero;
                        let r = self.accumulate(st, &it, Val::T(z, Ty::Int), &mut |s, st, a, _| {
                            let a = s.to_t(st, &a);
                            let o = s.tm.one;
                            Val::T(s.tm.add(a, o), Ty::Int)
                        });
                        self.to_t(st, &r)
                    }
                };
                Val::T(n, Ty::Int)
            }
            ("is_empty", 0) => {
                let n = self.iter_method(st, env, it, None, "count", vec![], &Ty::Int);
                let n = self.to_t(st, &n);
                let z = self.tm.zero;
                Val::T(self.tm.eq(n, z), Ty::Bool)
            }
            ("contains", 1) => {
                let x = arg(self, st, &args[0]);
                match &it {
                    It::Range(lo, n, _) => {
                        let hi = self.tm.add(*lo, *n);
                        let a = self.tm.le(*lo, x);
                        let c = self.tm.lt(x, hi);
                        Val::T(self.tm.and(a, c), Ty::Bool)
                    }
                    It::RangeFrom(lo, _) => Val::T(self.tm.le(*lo, x), Ty::Bool),
                    _ => {
                        let s = self.reify(st, &it);
                        Val::T(self.tm.app("contains", vec![s, x]), Ty::Bool)
                    }
                }
            }
            ("scan", 2) => {
                let f = args.remove(1);
                let init = args.remove(0);
                let init = self.value(st, init);
                let ity = self.val_ty(&init);
                let acc = self.alloc(st, init);
                let e = self.tm.empty_seq();
                let out = self.alloc(st, Val::T(e, Ty::Unk));
                let mut ety = Ty::Unk;
                self.consume(st, &it, &mut |s, st, _, x| {
                    let o = s.apply(st, &f, vec![Val::Ref(Place::root(acc), ity.clone()), x]);
                    let oty = s.val_ty(&o).inner();
                    let t = s.to_t(st, &o);
                    let c = s.tm.is(t, "Some");
                    let v = s.tm.payload(t, "Some", "0");
                    ety = oty;
                    if c == s.tm.tt {
                        let cur = s.read_root(st, out);
                        let cur = s.to_t(st, &cur);
                        let n = s.tm.push(cur, v);
                        s.write(st, &Place::root(out), Val::T(n, Ty::Unk));
                    } else {
                        let o = s.tm.opaque("scan that stops");
                        s.write(st, &Place::root(out), Val::T(o, Ty::Unk));
                    }
                });
                let v = self.read_root(st, out);
                let t = self.to_t(st, &v);
                Self::bx(It::Elems(t, ety))
            }
            ("fold", 2) => {
                let f = args.remove(1);
                let init = args.remove(0);
                let init = self.value(st, init);
                self.accumulate(st, &it, init, &mut |s, st, a, x| {
                    let r = s.apply(st, &f, vec![a, x]);
                    s.value(st, r)
                })
            }
            ("try_fold", 2) => self.opaque("try_fold"),
            ("for_each", 1) => {
                let f = args.remove(0);
                self.consume(st, &it, &mut |s, st, _, x| {
                    s.apply(st, &f, vec![x]);
                });
                self.unit()
            }
            ("any" | "all", 1) => {
                let f = args.remove(0);
                let all = name == "all";
                let init = if all { self.tm.tt } else { self.tm.ff };
                let r = self.accumulate(st, &it, Val::T(init, Ty::Bool), &mut |s, st, a, x| {
                    let c = s.apply(st, &f, vec![x]);
                    let c = s.to_t(st, &c);
                    let a = s.to_t(st, &a);
                    let r = if all { s.tm.and(a, c) } else { s.tm.or(a, c) };
                    Val::T(r, Ty::Bool)
                });
                let t = self.to_t(st, &r);
                Val::T(t, Ty::Bool)
            }
            ("find" | "find_map" | "position", 1) => {
                let f = args.remove(0);
                let none = self.tm.none();
                let r = self.alloc(st, Val::T(none, Ty::Opt(Box::new(Ty::Unk))));
                let kind = name.to_string();
                let k = self.tm.zero;
                let kr = self.alloc(st, Val::T(k, Ty::Int));
                self.consume(st, &it, &mut |s, st, i, x| {
                    let cx = s.apply(st, &f, vec![x.clone()]);
                    let (c, v) = match kind.as_str() {
                        "find_map" => {
                            let t = s.to_t(st, &cx);
                            (s.tm.is(t, "Some"), Val::T(t, Ty::Unk))
                        }
                        "position" => {
                            let c = s.to_t(st, &cx);
                            let ix = match i {
                                Some(i) => i,
                                None => {
                                    let v = s.read_root(st, kr);
                                    s.to_t(st, &v)
                                }
                            };
                            let o = s.tm.some(ix);
                            if i.is_none() {
                                let one = s.tm.one;
                                let n = s.tm.add(ix, one);
                                s.write(st, &Place::root(kr), Val::T(n, Ty::Int));
                            }
                            (c, Val::T(o, Ty::Unk))
                        }
                        _ => {
                            let c = s.to_t(st, &cx);
                            let ty = s.val_ty(&x);
                            let y = s.value(st, x);
                            let y = s.to_t(st, &y);
                            let o = s.tm.some(y);
                            (c, Val::T(o, Ty::Opt(Box::new(ty))))
                        }
                    };
                    s.branch(
                        st,
                        c,
                        &mut |s, st| {
                            s.write(st, &Place::root(r), v.clone());
                            st.brk = s.tm.tt;
                            s.unit()
                        },
                        &mut |s, _| s.unit(),
                    );
                });
                self.read_root(st, r)
            }
            ("min" | "max", 0) => {
                let (s, ty) = self.seq_of(st, &it);
                self.extreme(s, name, vec![], ty)
            }
            ("min_by_key" | "max_by_key" | "min_by" | "max_by" | "reduce", 1) => {
                // comparison by partial order of the values themselves is min/max
                let (s, ty) = self.seq_of(st, &it);
                // few items in a law on an instance of fixed size: compare them in turn
                if let (Node::Array(v), true) = (self.tm.n(s).clone(), name == "min_by" || name == "max_by") {
                    if v.len() <= self.opts.unroll && !v.is_empty() {
                        let mut best = v[0];
                        for x in &v[1..] {
                            let r = self.apply(st, &args[0], vec![Val::T(best, ty.clone()), Val::T(*x, ty.clone())]);
                            let r = self.to_t(st, &r);
                            let g = self.tm.is(r, "Ordering::Greater");
                            let g = self.decided(g);
                            best = if name == "max_by" { self.tm.ite(g, best, *x) } else { self.tm.ite(g, *x, best) };
                        }
                        let so = self.tm.some(best);
                        return Val::T(so, Ty::Opt(Box::new(ty)));
                    }
                }
                let f = self.to_t(st, &args[0]);
                if name == "min_by" || name == "max_by" {
                    if self.is_plain_cmp(f) {
                        return self.extreme(s, &name[..3], vec![], ty);
                    }
                }
                if name == "reduce" {
                    if let Node::Lam(2, bd) = self.tm.n(f).clone() {
                        if let Node::App(n, a) = self.tm.n(bd).clone() {
                            let (v0, v1) = (self.tm.mk(Node::BV(0)), self.tm.mk(Node::BV(1)));
                            if (n == "min" || n == "max") && a.len() == 2 && a.contains(&v0) && a.contains(&v1) {
                                return self.extreme(s, &n, vec![], ty);
                            }
                        }
                    }
                    if let Node::Path(p) = self.tm.n(f).clone() {
                        let l = p.rsplit("::").next().unwrap_or("").to_string();
                        if p.starts_with("fn ") && (l == "min" || l == "max") {
                            return self.extreme(s, &l, vec![], ty);
                        }
                    }
                }
                self.extreme(s, name, vec![f], ty)
            }
            ("last", 0) => {
                let (s, ty) = self.seq_of(st, &it);
                let l = self.tm.len(s);
                let z = self.tm.zero;
                let o = self.tm.one;
                let e = self.tm.eq(l, z);
                let k = self.tm.sub(l, o);
                let x = self.tm.index(s, k);
                let so = self.tm.some(x);
                let no = self.tm.none();
                Val::T(self.tm.ite(e, no, so), Ty::Opt(Box::new(ty)))
            }
            ("next" | "nth" | "next_back", _) => {
                let k = if name == "nth" { arg(self, st, &args[0]) } else { self.tm.zero };
                let one = self.tm.one;
                let back = name == "next_back";
                let n = match (&it, self.count_of(st, &it)) {
                    (It::Filter(..) | It::FilterMap(..), _) | (_, None) => {
                        let (s, ty) = self.seq_of(st, &it);
                        let r = self.tm.app("nth", vec![s, k]);
                        if let Some(p) = place {
                            let k1 = self.tm.add(k, one);
                            self.write(st, &p, Self::bx(It::Skip(b(it), k1)));
                        }
                        return Val::T(r, Ty::Opt(Box::new(ty)));
                    }
                    (_, Some(n)) => n,
                };
                let idx = if back { self.tm.sub(n, one) } else { k };
                let inf = self.tm.path("inf");
                let c = if n == inf { self.tm.tt } else { self.tm.lt(k, n) };
                let x = self.elem_at(st, &it, idx);
                if let Some(p) = place {
                    let k1 = self.tm.add(k, one);
                    let nit = if back {
                        let m = self.tm.sub(n, one);
                        It::Take(b(it), m)
                    } else {
                        match it {
                            It::Range(lo, n, ty) => {
                                let lo2 = self.tm.add(lo, k1);
                                let n2 = self.tm.sub(n, k1);
                                It::Range(lo2, n2, ty)
                            }
                            It::RangeFrom(lo, ty) => {
                                let lo2 = self.tm.add(lo, k1);
                                It::RangeFrom(lo2, ty)
                            }
                            It::Skip(a, m) => {
                                let m2 = self.tm.add(m, k1);
                                It::Skip(a, m2)
                            }
                            x => It::Skip(b(x), k1),
                        }
                    };
                    self.write(st, &p, Self::bx(nit));
                }
                match x {
                    Val::Ref(p, t) => Val::OptRef(c, p, t),
                    x => {
                        let ty = self.val_ty(&x);
                        let t = self.to_t(st, &x);
                        let so = self.tm.some(t);
                        let no = self.tm.none();
                        Val::T(self.tm.ite(c, so, no), Ty::Opt(Box::new(ty)))
                    }
                }
            }
            ("unzip" | "partition", _) => {
                let e = self.tm.empty_seq();
                let r1 = self.alloc(st, Val::T(e, Ty::Unk));
                let r2 = self.alloc(st, Val::T(e, Ty::Unk));
                let unzip = name == "unzip";
                let mut tys = (Ty::Unk, Ty::Unk);
                let f = args.first().cloned();
                self.consume(st, &it, &mut |s, st, _, x| {
                    let x = s.value(st, x);
                    if unzip {
                        let (a, bb) = match x {
                            Val::Tup(v) if v.len() == 2 => (v[0].clone(), v[1].clone()),
                            x => {
                                let a = s.field_of(st, x.clone(), "0");
                                let c = s.field_of(st, x, "1");
                                (a, c)
                            }
                        };
                        for (k, (r, y)) in [(r1, a), (r2, bb)].into_iter().enumerate() {
                            let ty = s.val_ty(&y);
                            if k == 0 {
                                tys.0 = ty;
                            } else {
                                tys.1 = ty;
                            }
                            let y = s.value(st, y);
                            let y = s.to_t(st, &y);
                            s.push_root(st, r, y);
                        }
                    } else {
                        let c = s.apply(st, f.as_ref().unwrap(), vec![x.clone()]);
                        let c = s.to_t(st, &c);
                        let ty = s.val_ty(&x);
                        tys = (ty.clone(), ty);
                        let y = s.to_t(st, &x);
                        s.branch(
                            st,
                            c,
                            &mut |s, st| {
                                s.push_root(st, r1, y);
                                s.unit()
                            },
                            &mut |s, st| {
                                s.push_root(st, r2, y);
                                s.unit()
                            },
                        );
                    }
                });
                let a = self.read_root(st, r1);
                let a = self.to_t(st, &a);
                let c = self.read_root(st, r2);
                let c = self.to_t(st, &c);
                Val::Tup(vec![Val::T(a, Ty::arr((tys.0))), Val::T(c, Ty::arr((tys.1)))])
            }
            ("collect" | "collect_vec", 0) => self.collect_as(st, env, it, hint),
            _ => {
                // methods of the container itself (rare): reify
                let (s, ty) = self.seq_of(st, &it);
                self.method(st, env, Val::T(s, Ty::arr((ty))), name, args, hint)
            }
        }
    }
    fn push_root(&mut self, st: &mut State, r: usize, y: T) {
        let cur = self.read_root(st, r);
        let cur = self.to_t(st, &cur);
        let n = self.tm.push(cur, y);
        self.write(st, &Place::root(r), Val::T(n, Ty::Unk));
    }
    pub fn seq_of(&mut self, st: &mut State, it: &It) -> (T, Ty) {
        match it {
            It::ElemsMut(p, ty) => {
                let v = self.read_deep(st, p);
                (self.to_t(st, &v), ty.clone())
            }
            _ => self.collect_seq(st, it),
        }
    }
    fn is_plain_cmp(&mut self, f: T) -> bool {
        // |a, b| a.partial_cmp(b).unwrap() / a.total_cmp(b)
        let (v0, v1) = (self.tm.mk(Node::BV(0)), self.tm.mk(Node::BV(1)));
        if let Node::Lam(2, bd) = self.tm.n(f).clone() {
            let a = self.cmp_term(v1, v0);
            let c = self.cmp_term(v0, v1);
            return bd == a || bd == c;
        }
        false
    }
    /// Ordering of two values
    pub fn cmp_term(&mut self, a: T, b: T) -> T {
        let l = self.tm.mk_struct("Ordering::Less", vec![]);
        let e = self.tm.mk_struct("Ordering::Equal", vec![]);
        let g = self.tm.mk_struct("Ordering::Greater", vec![]);
        let c1 = self.tm.lt(a, b);
        let c2 = self.tm.eq(a, b);
        let r = self.tm.ite(c2, e, g);
        self.tm.ite(c1, l, r)
    }
    fn extreme(&mut self, s: T, name: &str, extra: Vec<T>, ty: Ty) -> Val {
        let oty = Ty::Opt(Box::new(ty));
        let no = self.tm.none();
        if extra.is_empty() {
            if let Node::Array(v) = self.tm.n(s).clone() {
                if v.is_empty() {
                    return Val::T(no, oty);
                }
                let m = self.tm.app(name, v);
                let so = self.tm.some(m);
                return Val::T(so, oty);
            }
        }
        let l = self.tm.len(s);
        let z = self.tm.zero;
        let e = self.tm.eq(l, z);
        let mut a = vec![s];
        a.extend(extra);
        let m = self.tm.app(&format!("it{name}"), a);
        let so = self.tm.some(m);
        Val::T(self.tm.ite(e, no, so), oty)
    }
    pub fn sum_it(&mut self, st: &mut State, it: &It, hint: &Ty) -> Val {
        let mut ty = hint.clone();
        if ty == Ty::Unk {
            let mut s2 = st.clone();
            ty = self.collect_seq(&mut s2, it).1;
        }
        let init = match self.vec_dim(&ty) {
            Some(k) => {
                let z = self.tm.zero;
                self.mk_vec(vec![z; k])
            }
            None => self.tm.zero,
        };
        self.accumulate(st, it, Val::T(init, ty), &mut |s, st, a, x| {
            let x = s.value(st, x);
            s.binop(st, "+", a, x)
        })
    }
    fn collect_as(&mut self, st: &mut State, env: &Env, it: It, hint: &Ty) -> Val {
        let _ = env;
        match hint {
            Ty::Named(n, a) if n == "HashMap" || n == "BTreeMap" || n == "BiMap" => {
                let em = self.tm.mk(Node::App("emptymap".into(), vec![]));
                let r = self.alloc(st, Val::T(em, hint.clone()));
                let mut kv = (a.first().cloned().unwrap_or(Ty::Unk), a.get(1).cloned().unwrap_or(Ty::Unk));
                self.consume(st, &it, &mut |s, st, _, x| {
                    let x = s.value(st, x);
                    let k = s.field_of(st, x.clone(), "0");
                    let v = s.field_of(st, x, "1");
                    if kv.0 == Ty::Unk {
                        kv.0 = s.val_ty(&k);
                    }
                    if kv.1 == Ty::Unk {
                        kv.1 = s.val_ty(&v);
                    }
                    let k = s.value(st, k);
                    let k = s.to_t(st, &k);
                    let v = s.value(st, v);
                    let v = s.to_t(st, &v);
                    let cur = s.read_root(st, r);
                    let cur = s.to_t(st, &cur);
                    let n = s.map_store(cur, k, v);
                    s.write(st, &Place::root(r), Val::T(n, Ty::Unk));
                });
                let v = self.read_root(st, r);
                let t = self.to_t(st, &v);
                Val::T(t, Ty::Named(n.clone(), vec![kv.0, kv.1]))
            }
            Ty::Named(n, _) if n == "HashSet" || n == "BTreeSet" => {
                let (s, _) = self.seq_of(st, &it);
                let t = self.tm.app("set_of", vec![s]);
                Val::T(t, hint.clone())
            }
            Ty::Named(n, _) => {
                if let Some(fid) = self.trait_method(hint, "FromIterator", "from_iter") {
                    return self.call(st, fid, vec![Val::It(Box::new(it))], Some(hint.clone()));
                }
                let (s, ty) = self.seq_of(st, &it);
                if n == "_" {
                    return Val::T(s, Ty::arr((ty)));
                }
                let n = n.clone();
                let t = self.tm.app(&format!("collect:{n}"), vec![s]);
                Val::T(t, hint.clone())
            }
            Ty::Str => {
                let (s, _) = self.seq_of(st, &it);
                let t = self.tm.app("collect:String", vec![s]);
                Val::T(t, Ty::Str)
            }
            Ty::Opt(_) | Ty::Res(..) => {
                let (good, bad) = if matches!(hint, Ty::Opt(_)) { ("Some", "None") } else { ("Ok", "Err") };
                let (s, _) = self.seq_of(st, &it);
                // any failure -> the first failure, else all payloads
                let l = self.tm.len(s);
                let s1 = self.tm.shift(s, 1);
                let bv = self.tm.mk(Node::BV(0));
                let el = self.tm.index(s1, bv);
                let c = self.tm.is(el, bad);
                let fail = self.tm.any(l, c);
                let pay = self.tm.payload(el, good, "0");
                let tt = self.tm.tt;
                let e = self.tm.empty_seq_base();
                let sq = self.tm.seq_on(e, vec![crate::term::Item::Gen(vec![l], tt, pay)]);
                let ok = self.tm.mk_struct(good, vec![("0".into(), sq)]);
                let ko = if bad == "None" {
                    self.tm.none()
                } else {
                    let f = match self.tm.n(s).clone() {
                        Node::Array(v) if !v.is_empty() => {
                            let mut f = self.tm.payload(*v.last().unwrap(), "Err", "0");
                            for x in v[..v.len() - 1].iter().rev() {
                                let c = self.tm.is(*x, "Err");
                                let e = self.tm.payload(*x, "Err", "0");
                                f = self.tm.ite(c, e, f);
                            }
                            f
                        }
                        _ => self.tm.app("first_err", vec![s]),
                    };
                    self.tm.mk_struct("Err", vec![("0".into(), f)])
                };
                Val::T(self.tm.ite(fail, ko, ok), hint.clone())
            }
            _ => {
                let (s, ty) = self.seq_of(st, &it);
                let ty = match hint {
                    Ty::Arr(e, _) if **e != Ty::Unk => (**e).clone(),
                    _ => ty,
                };
                Val::T(s, Ty::arr((ty)))
            }
        }
    }
    pub fn std_call(&mut self, st: &mut State, env: &Env, segs: &[String], args: Vec<Val>, hint: Option<&Ty>) -> Val {
        let last = segs.last().unwrap().as_str();
        let tn = if segs.len() > 1 { segs[segs.len() - 2].clone() } else { String::new() };
        let hint_t = hint.cloned().unwrap_or(Ty::Unk);
        let tty = if tn.is_empty() || tn == "?" { Ty::Unk } else { self.named_ty(env, &tn) };
        let arr = |h: &Ty| match h {
            Ty::Arr(..) => h.clone(),
            _ => Ty::arr((Ty::Unk)),
        };
        match (tn.as_str(), last, args.len()) {
            ("Vec" | "VecDeque", "new" | "with_capacity" | "default", _) => {
                let e = self.tm.empty_seq();
                return Val::T(e, arr(&hint_t));
            }
            ("HashMap" | "BTreeMap" | "HashSet" | "BTreeSet" | "BiMap", "new" | "default" | "with_capacity", _) => {
                let e = self.tm.mk(Node::App("emptymap".into(), vec![]));
                let ty = match &hint_t {
                    Ty::Named(..) => hint_t.clone(),
                    _ => Ty::Named(tn.clone(), vec![]),
                };
                return Val::T(e, ty);
            }
            ("MaybeUninit", "new", 1) => {
                let v = self.value(st, args[0].clone());
                let t = self.to_t(st, &v);
                return Val::T(t, Ty::Named("MaybeUninit".into(), vec![self.val_ty(&v)]));
            }
            ("MaybeUninit", "uninit" | "zeroed", 0) => {
                let t = self.tm.path("uninit");
                return Val::T(t, Ty::Named("MaybeUninit".into(), vec![Ty::Unk]));
            }
            ("String", "new", 0) => {
                let e = self.tm.str("");
                return Val::T(e, Ty::Str);
            }
            ("Box" | "Rc" | "Arc" | "Mutex" | "RefCell" | "Cell" | "RwLock" | "Some" | "Wrapping" | "ManuallyDrop" | "Pin", "new", 1) => {
                let a = args.into_iter().next().unwrap();
                return a;
            }
            ("mem" | "", "take", 1) if matches!(args[0], Val::Ref(..)) => {
                if let Val::Ref(p, t) = &args[0] {
                    let t = if *t == Ty::Unk { self.place_ty(st, p) } else { t.clone() };
                    let old = self.read_deep(st, p);
                    let d = self.default_of(st, &t);
                    let p = p.clone();
                    self.write(st, &p, Val::T(d, t));
                    return old;
                }
            }
            ("mem" | "", "replace", 2) if matches!(args[0], Val::Ref(..)) => {
                if let Val::Ref(p, _) = &args[0] {
                    let old = self.read_deep(st, p);
                    let v = self.value(st, args[1].clone());
                    let p = p.clone();
                    self.write(st, &p, v);
                    return old;
                }
            }
            ("mem" | "", "swap", 2) => {
                if let (Val::Ref(p, _), Val::Ref(q, _)) = (&args[0], &args[1]) {
                    let (p, q) = (p.clone(), q.clone());
                    let a = self.read_deep(st, &p);
                    let c = self.read_deep(st, &q);
                    self.write(st, &p, c);
                    self.write(st, &q, a);
                    return self.unit();
                }
            }
            ("" | "request", "scope", 1) if matches!(args[0], Val::Clo(..)) => {
                // requests may borrow until the closure returns
                let s = self.tm.sym("scope");
                return self.apply(st, &args[0], vec![Val::T(s, Ty::Unk)]);
            }
            (_, "drop", 1) | (_, "forget", 1) => return self.unit(),
            ("iter", "once", 1) => return Self::bx(It::Items(args)),
            ("iter", "empty", 0) => return Self::bx(It::Items(vec![])),
            ("iter", "repeat", 1) => {
                let z = self.tm.zero;
                let v = self.value(st, args[0].clone());
                let (r, ty) = (self.to_t(st, &v), self.val_ty(&v));
                let l = self.tm.mk(Node::Repeat(r, z));
                let _ = l;
                let s = self.tm.app("repeat", vec![r]);
                return Val::T(s, ty);
            }
            ("cmp" | "", "min" | "max", 2) => {
                let a = self.value(st, args[0].clone());
                let ty = self.val_ty(&a);
                let a = self.to_t(st, &a);
                let c = self.value(st, args[1].clone());
                let c = self.to_t(st, &c);
                return Val::T(self.min_or_max(last, &ty, a, c), ty);
            }
            ("Default", "default", 0) | ("?", "default", 0) => {
                let t = self.default_of(st, &hint_t);
                return Val::T(t, hint_t);
            }
            (_, "default", 0) => {
                let t = self.default_of(st, &tty);
                return Val::T(t, tty);
            }
            (_, "from_bits" | "from_ne_bytes", _) => {}
            ("IntoIterator", "into_iter", 1) => {
                let it = self.into_iter(st, args[0].clone());
                return Self::bx(it);
            }
            _ => {}
        }
        if tn.is_empty() && last == "derivative" && args.len() == 2 {
            let f = self.value(st, args[0].clone());
            let f = self.to_t(st, &f);
            let v = self.value(st, args[1].clone());
            let v = self.to_t(st, &v);
            return match self.tm.derive(f, v) {
                Some(d) => Val::T(d, Ty::Float),
                None => self.opaque("derivative"),
            };
        }
        // arrays built from an index function or an iterator
        if matches!((tn.as_str(), last, args.len()), ("array_init", "array_init", 1) | ("array", "from_fn", 1) | ("", "array_init" | "from_fn", 1)) {
            let n = match &hint_t {
                Ty::Arr(_, Some(n)) => *n,
                _ => match self.opaque("array length") {
                    Val::T(t, _) => t,
                    _ => unreachable!(),
                },
            };
            let ehint = hint_t.elem();
            if let Val::Clo(c) = &args[0] {
                self.clo_hints.insert(Rc::as_ptr(&c.body) as usize, ehint);
            }
            let z = self.tm.zero;
            let it = It::Map(Box::new(It::Range(z, n, Ty::Int)), Box::new(args[0].clone()));
            let s = self.reify(st, &it);
            return Val::T(s, hint_t);
        }
        if (tn == "array_init" || tn.is_empty()) && last == "from_iter" && args.len() == 1 {
            let it = self.into_iter(st, args[0].clone());
            let s = self.reify(st, &it);
            let o = self.tm.some(s);
            return Val::T(o, Ty::Opt(Box::new(Ty::arr(Ty::Unk))));
        }
        // exact rational value of a float
        if matches!(last, "from_f64" | "from_f32" | "from_float") && args.len() == 1 {
            let v = self.value(st, args[0].clone());
            let x = self.to_t(st, &v);
            let e = self.tm.app("fn:exact", vec![x]);
            let o = self.tm.some(e);
            return Val::T(o, Ty::Opt(Box::new(tty)));
        }
        // vector constructors
        if let Some(k) = self.vec_dim(&tty) {
            let is_new = matches!(last, "new" | "new_unchecked" | "from_vector_and_scale" | "dimensionless");
            let plain = args.iter().all(|a| {
                let t = self.val_ty(a);
                self.vec_dim(&t).is_none()
            });
            if args.len() == k && (is_new || self.is_unit_name(last) && plain) {
                let mut c = vec![];
                for a in &args {
                    let v = self.value(st, a.clone());
                    c.push(self.to_t(st, &v));
                }
                if !is_new {
                    let u = self.tm.path(&format!("unit:{last}"));
                    c = c.into_iter().map(|x| self.tm.mul(x, u)).collect();
                }
                let v = self.mk_vec(c);
                return Val::T(v, tty);
            }
            if last == "zero" && args.is_empty() {
                let z = self.tm.zero;
                let v = self.mk_vec(vec![z; k]);
                return Val::T(v, tty);
            }
            if let ("new_x" | "new_y" | "new_z", [a]) = (last, &args[..]) {
                let v = self.value(st, a.clone());
                let x = self.to_t(st, &v);
                let mut c = vec![self.tm.zero; k];
                let at = match last {
                    "new_x" => 0,
                    "new_y" => 1,
                    _ => 2,
                };
                if at < k {
                    c[at] = x;
                    let v = self.mk_vec(c);
                    return Val::T(v, tty);
                }
            }
            if last == "splat" && args.len() == 1 {
                let v = self.value(st, args[0].clone());
                let x = self.to_t(st, &v);
                let v = self.mk_vec(vec![x; k]);
                return Val::T(v, tty);
            }
            if args.len() == 1 && matches!(last, "new_unchecked" | "from" | "from_array" | "dimensionless") {
                let v = self.value(st, args[0].clone());
                let x = self.to_t(st, &v);
                if last == "from_array" || last == "from" && (matches!(self.val_ty(&v), Ty::Arr(..)) || matches!(self.tm.n(x), Node::Array(_)) || matches!(self.tm.n(x), Node::Field(_, f) if f == "Ok#0")) {
                    let c = (0..k)
                        .map(|i| {
                            let i = self.tm.int(i as i64);
                            self.tm.index(x, i)
                        })
                        .collect();
                    let v = self.mk_vec(c);
                    return Val::T(v, tty);
                }
                return Val::T(x, tty);
            }
        }
        // quantities
        if args.len() == 1 && (last == "new_unchecked" || last == "dimensionless") {
            let v = self.value(st, args[0].clone());
            let x = self.to_t(st, &v);
            return Val::T(x, tty);
        }
        if last == "zero" && args.is_empty() {
            let z = self.tm.zero;
            return Val::T(z, tty);
        }
        if last == "one" && args.is_empty() {
            let z = self.tm.one;
            return Val::T(z, tty);
        }
        if args.len() == 1 && tn.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) && self.unit_ty(&tty) && self.is_unit_name(last) {
            let v = self.value(st, args[0].clone());
            let x = self.to_t(st, &v);
            let u = self.tm.path(&format!("unit:{last}"));
            return Val::T(self.tm.mul(x, u), tty);
        }
        // conversions
        if last == "from" && args.len() == 1 {
            let v = self.value(st, args[0].clone());
            let x = self.to_t(st, &v);
            if matches!(tty, Ty::Int | Ty::Float) && (self.val_ty(&v) == Ty::Bool || self.tm.is_bool(x)) {
                let (o, z) = (self.tm.one, self.tm.zero);
                return Val::T(self.tm.ite(x, o, z), tty);
            }
            if matches!(tty, Ty::Int | Ty::Float | Ty::Str | Ty::Arr(..)) {
                return Val::T(x, tty);
            }
            return Val::T(self.tm.app(&format!("fn:{tn}::from"), vec![x]), tty);
        }
        // UFCS on primitive and standard types
        let prim = matches!(tty, Ty::Int | Ty::Float | Ty::Bool | Ty::Str | Ty::Arr(..) | Ty::Opt(_) | Ty::Res(..))
            || matches!(tn.as_str(), "Iterator" | "Option" | "Result" | "Vec" | "Clone" | "ToString" | "Into" | "f64" | "f32" | "Ord" | "HashMap" | "Float" | "Add" | "Mul" | "Sub" | "Neg" | "Vector" | "Num" | "Signed")
            || self.unit_ty(&tty)
            || self.vec_dim(&tty).is_some();
        if prim && !args.is_empty() {
            let mut a = args;
            let r = a.remove(0);
            return self.method(st, env, r, last, a, &hint_t);
        }
        let full = if tn.is_empty() { last.to_string() } else { format!("{tn}::{last}") };
        self.notes.push(format!("uninterpreted function {full}"));
        self.opaque_call(st, &full, args, hint_t)
    }
    fn is_unit_name(&self, n: &str) -> bool {
        if !self.prog.unit_names.is_empty() {
            return self.prog.unit_names.contains(n);
        }
        n.chars().next().map(|c| c.is_lowercase()).unwrap_or(false) && !matches!(n, "from_f64" | "from_bits" | "from_iter" | "new" | "from" | "zero" | "one" | "default" | "abs" | "max" | "min" | "sqrt")
    }
    fn named_ty(&mut self, env: &Env, n: &str) -> Ty {
        match syn::parse_str::<syn::Type>(n) {
            Ok(t) => {
                let ctx = env.ctx.clone();
                self.ty(&t, &ctx)
            }
            Err(_) => Ty::Unk,
        }
    }
}
