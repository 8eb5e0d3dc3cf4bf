//! Loops as closed forms (sums, comprehensions, searches) or folds.
use crate::eval::*;
use crate::expr::strip;
use crate::term::{rat, Item, Node, T};
use crate::val::*;
use num_traits::Signed;
use std::rc::Rc;

#[derive(Clone)]
struct Car {
    /// None: the world (sequence of observable effects)
    root: Option<usize>,
    path: Vec<String>,
    init: T,
    sym: T,
    next: T,
}

impl Ev {
    fn car_read(&mut self, st: &mut State, root: Option<usize>, path: &[String]) -> T {
        match root {
            None => st.world,
            Some(r) => {
                let v = self.read_root(st, r);
                let mut t = match v {
                    Val::T(t, _) => t,
                    Val::Ref(..) | Val::It(_) | Val::Clo(_) | Val::Fn(..) => return self.tm.zero,
                    x => self.to_t(st, &x),
                };
                for f in path {
                    t = self.tm.field(t, f);
                }
                t
            }
        }
    }
    fn car_write(&mut self, st: &mut State, root: Option<usize>, path: &[String], x: T) {
        match root {
            None => st.world = x,
            Some(r) => {
                let v = self.read_root(st, r);
                let ty = self.val_ty(&v);
                let base = match v {
                    Val::T(t, _) => t,
                    y => self.to_t(st, &y),
                };
                let nt = self.with_path(base, path, x);
                st.vars[r] = Some(Val::T(nt, ty));
            }
        }
    }
    fn with_path(&mut self, t: T, path: &[String], x: T) -> T {
        if path.is_empty() {
            return x;
        }
        let inner = self.tm.field(t, &path[0]);
        let n = self.with_path(inner, &path[1..], x);
        self.tm.with(t, &path[0], n)
    }
    fn diff(&mut self, a: T, b: T, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        if a == b {
            return;
        }
        let names: Option<Vec<String>> = match (self.tm.n(a).clone(), self.tm.n(b).clone()) {
            (Node::With(b0, f0), Node::With(b1, f1)) if b0 == b1 => {
                let mut v: Vec<String> = f0.iter().map(|x| x.0.clone()).collect();
                v.extend(f1.iter().map(|x| x.0.clone()));
                v.sort();
                v.dedup();
                Some(v)
            }
            (_, Node::With(b1, f1)) if b1 == a => Some(f1.iter().map(|x| x.0.clone()).collect()),
            (Node::With(b0, f0), _) if b0 == b => Some(f0.iter().map(|x| x.0.clone()).collect()),
            (Node::Struct(n0, f0), Node::Struct(n1, f1))
                if n0 == n1 && f0.len() == f1.len() && !self.tm.is_variant(&n0) && f0.iter().zip(&f1).all(|(x, y)| x.0 == y.0) =>
            {
                Some(f0.iter().map(|x| x.0.clone()).collect())
            }
            _ => None,
        };
        match names {
            Some(v) if path.len() < 6 => {
                for n in v {
                    let x = self.tm.field(a, &n);
                    let y = self.tm.field(b, &n);
                    path.push(n);
                    self.diff(x, y, path, out);
                    path.pop();
                }
            }
            _ => out.push(path.clone()),
        }
    }
    /// value of t where c holds (drops the part of the decision tree excluded by c)
    pub fn restrict(&mut self, t: T, c: T) -> T {
        if c == self.tm.tt || c == self.tm.ff {
            return t;
        }
        if !matches!(self.tm.n(t), Node::Ite(..)) && !self.tm.is_bool(t) {
            // records and sequences: restrict inside
            return match self.tm.n(t).clone() {
                Node::Struct(n, fs) => {
                    let g = fs.into_iter().map(|(f, x)| (f, self.restrict(x, c))).collect();
                    self.tm.mk_struct(&n, g)
                }
                Node::With(b, fs) => {
                    let mut r = b;
                    for (f, x) in fs {
                        let y = self.restrict(x, c);
                        r = self.tm.with(r, &f, y);
                    }
                    r
                }
                Node::Seq(b, items) => {
                    let mut out = vec![];
                    for it in items {
                        out.push(match it {
                            Item::One(g, v) => {
                                let g2 = self.restrict(g, c);
                                let v2 = self.restrict(v, c);
                                Item::One(g2, v2)
                            }
                            Item::Gen(cs, g, v) => {
                                let k = cs.len() as u32;
                                let c2 = self.tm.shift(c, k);
                                let g2 = self.restrict(g, c2);
                                Item::Gen(cs, g2, v)
                            }
                            x => x,
                        });
                    }
                    self.tm.seq_on(b, out)
                }
                Node::Store(a, i, v) => {
                    let v2 = self.restrict(v, c);
                    self.tm.store(a, i, v2)
                }
                _ => t,
            };
        }
        if self.tm.is_bool(t) {
            return self.tm.constrain(t, c, 40);
        }
        let u = self.tm.mk(Node::App("dontcare".into(), vec![]));
        let r = self.tm.ite(c, t, u);
        let mut memo = std::collections::HashMap::new();
        self.drop_leaf(r, u, &mut memo)
    }
    fn drop_leaf(&mut self, t: T, u: T, memo: &mut std::collections::HashMap<T, T>) -> T {
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let r = self.drop_leaf_inner(t, u, memo);
        memo.insert(t, r);
        r
    }
    fn drop_leaf_inner(&mut self, t: T, u: T, memo: &mut std::collections::HashMap<T, T>) -> T {
        match self.tm.n(t).clone() {
            Node::Ite(c, a, b) => {
                let a2 = self.drop_leaf(a, u, memo);
                let b2 = self.drop_leaf(b, u, memo);
                if a2 == u {
                    return b2;
                }
                if b2 == u {
                    return a2;
                }
                self.tm.ite(c, a2, b2)
            }
            _ => t,
        }
    }
    pub fn unroll(&mut self, st: &mut State, k: i64, n: i64, body: &mut dyn FnMut(&mut Ev, &mut State, T)) {
        if k >= n || st.dead {
            return;
        }
        let i = self.tm.int(k);
        body(self, st, i);
        st.cont = self.tm.ff;
        let stop = self.tm.or(st.ret, st.brk);
        self.unroll_rest(st, stop, &mut |s, st| s.unroll(st, k + 1, n, body));
    }
    /// run `rest` only where we have not left
    pub fn unroll_rest(&mut self, st: &mut State, stop: T, rest: &mut dyn FnMut(&mut Ev, &mut State)) {
        if st.dead || stop == self.tm.tt {
            return;
        }
        if stop == self.tm.ff {
            rest(self, st);
            return;
        }
        let s_stop = st.clone();
        let mut s_rest = st.clone();
        s_rest.ret = self.tm.ff;
        s_rest.brk = self.tm.ff;
        rest(self, &mut s_rest);
        let mut s_stop = s_stop;
        let n = s_rest.vars.len().max(s_stop.vars.len());
        s_stop.vars.resize(n, None);
        *st = self.merge(stop, s_stop, s_rest);
    }
    fn mentions(&mut self, t: T, syms: &[T]) -> bool {
        syms.iter().any(|s| self.tm.occurs(t, *s))
    }
    /// count: None for an unbounded loop
    pub fn run_loop(&mut self, st: &mut State, count: Option<T>, body: &mut dyn FnMut(&mut Ev, &mut State, T)) {
        if st.dead {
            return;
        }
        if let Some(c) = count {
            if let Some((cc, a, b)) = self.ite3(c) {
                let mut s1 = st.clone();
                let mut s2 = st.clone();
                self.run_loop(&mut s1, Some(a), body);
                self.run_loop(&mut s2, Some(b), body);
                *st = self.merge(cc, s1, s2);
                return;
            }
            if let Some(n) = self.tm.as_i64(c) {
                if n <= self.opts.unroll.max(16) as i64 {
                    self.unroll(st, 0, n, body);
                    return;
                }
            }
        }
        let i = self.tm.fresh("i");
        let mut entry = st.clone();
        entry.ret = self.tm.ff;
        entry.brk = self.tm.ff;
        entry.cont = self.tm.ff;
        entry.retval = None;
        entry.brkval = None;
        entry.panics = self.tm.ff;
        let nroots = entry.vars.len();
        let base = self.stop(st);
        entry.base = base;
        let mut cars: Vec<Car> = vec![];
        let mut fin: Option<State> = None;
        for pass in 0..7 {
            let mut s = entry.clone();
            for c in cars.clone() {
                self.car_write(&mut s, c.root, &c.path, c.sym);
            }
            let start = s.clone();
            body(self, &mut s, i);
            s.cont = self.tm.ff;
            if s.dead {
                // every iteration panics
                let z = self.tm.zero;
                let p = match count {
                    Some(c) => self.tm.lt(z, c),
                    None => self.tm.tt,
                };
                st.panics = self.tm.or(st.panics, p);
                return;
            }
            let mut new: Vec<(Option<usize>, Vec<String>)> = vec![];
            if s.world != start.world && !cars.iter().any(|c| c.root.is_none()) {
                new.push((None, vec![]));
            }
            for r in 0..nroots {
                let (a, b) = (start.vars[r].clone(), s.vars.get(r).cloned().flatten());
                let (a, b) = match (a, b) {
                    (Some(a), Some(b)) => (a, b),
                    _ => continue,
                };
                let (x, y) = match (&a, &b) {
                    (Val::T(x, _), Val::T(y, _)) => (*x, *y),
                    (Val::Tup(_), Val::Tup(_)) => {
                        let x = self.to_t(&mut start.clone(), &a);
                        let y = self.to_t(&mut s, &b);
                        (x, y)
                    }
                    (Val::T(..), Val::Tup(_)) | (Val::Tup(_), Val::T(..)) => {
                        let x = self.to_t(&mut start.clone(), &a);
                        let y = self.to_t(&mut s, &b);
                        (x, y)
                    }
                    (Val::Ref(p, _), Val::Ref(q, _)) if p == q => continue,
                    (Val::Ref(..), _) | (Val::OptRef(..), _) => {
                        let x = self.to_t(&mut start.clone(), &a);
                        let y = self.to_t(&mut s, &b);
                        if x != y && !matches!((&a, &b), (Val::Ref(..), Val::Ref(..)) | (Val::OptRef(..), Val::OptRef(..))) {
                            self.notes.push("reference reseated in a loop".into());
                        }
                        continue;
                    }
                    _ => continue,
                };
                let mut out = vec![];
                self.diff(x, y, &mut vec![], &mut out);
                for p in out {
                    if !cars.iter().any(|c| c.root == Some(r) && p.starts_with(&c.path)) {
                        new.push((Some(r), p));
                    }
                }
            }
            if new.is_empty() {
                fin = Some(s);
                break;
            }
            for (r, p) in new {
                cars.retain(|c| !(c.root == r && c.path.starts_with(&p)));
                let init = self.car_read(&mut entry, r, &p);
                let sym = self.tm.fresh(&format!("s{pass}"));
                cars.push(Car { root: r, path: p, init, sym, next: sym });
            }
        }
        let mut s = match fin {
            Some(s) => s,
            None => {
                let o = self.tm.opaque("loop did not stabilise");
                for c in cars {
                    self.car_write(st, c.root, &c.path, o);
                }
                st.world = o;
                return;
            }
        };
        for c in cars.iter_mut() {
            c.next = self.car_read(&mut s, c.root, &c.path.clone());
        }
        let e_ret = s.ret;
        let e_brk = s.brk;
        let e = self.tm.or(e_ret, e_brk);
        let retval = match &s.retval {
            Some(v) if e_ret != self.tm.ff => {
                let v = v.clone();
                Some(self.to_t(&mut s, &v))
            }
            _ => None,
        };
        let ret_ty = s.retval.clone().map(|v| self.val_ty(&v)).unwrap_or(Ty::Unk);
        let brkval = match &s.brkval {
            Some(v) if e_brk != self.tm.ff => {
                let v = v.clone();
                Some(self.to_t(&mut s, &v))
            }
            _ => None,
        };
        self.finish_loop(st, count, i, cars, e, e_ret, e_brk, retval, ret_ty, brkval, s.panics);
    }
    fn ite3(&self, t: T) -> Option<(T, T, T)> {
        match self.tm.n(t) {
            Node::Ite(c, a, b) => Some((*c, *a, *b)),
            _ => None,
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn finish_loop(
        &mut self,
        st: &mut State,
        count: Option<T>,
        i: T,
        cars: Vec<Car>,
        e: T,
        e_ret: T,
        e_brk: T,
        retval: Option<T>,
        ret_ty: Ty,
        brkval: Option<T>,
        panics: T,
    ) {
        let ff = self.tm.ff;
        let tt = self.tm.tt;
        let (mut cars, mut e, mut e_ret, mut e_brk, mut retval, mut brkval, mut panics) = (cars, e, e_ret, e_brk, retval, brkval, panics);
        // an array of which only one fixed cell changes: carry the cell
        let mut cells: Vec<Option<(T, T)>> = vec![None; cars.len()];
        for k in 0..cars.len() {
            let Some((key, subs)) = self.single_cell(k, &cars, i, &[e, e_ret, e_brk, panics], &[retval, brkval]) else { continue };
            let init = cars[k].init;
            let s = self.tm.fresh("cell");
            let subs: Vec<(T, T)> = subs.into_iter().map(|(x, y)| (x, y.unwrap_or(s))).collect();
            let v = match self.tm.n(cars[k].next).clone() {
                Node::Store(_, _, v) => v,
                _ => continue,
            };
            let nv = self.tm.subst(v, &subs);
            for j in 0..cars.len() {
                if j != k {
                    cars[j].next = self.tm.subst(cars[j].next, &subs);
                }
            }
            cars[k].init = self.tm.index(init, key);
            cars[k].sym = s;
            cars[k].next = nv;
            for x in [&mut e, &mut e_ret, &mut e_brk, &mut panics] {
                *x = self.tm.subst(*x, &subs);
            }
            retval = retval.map(|x| self.tm.subst(x, &subs));
            brkval = brkval.map(|x| self.tm.subst(x, &subs));
            cells[k] = Some((init, key));
        }
        let ne = self.tm.not(e);
        let n = cars.len();
        let mut count = count;
        // next value on the iterations that do not leave
        let m: Vec<T> = cars.iter().map(|c| self.restrict(c.next, ne)).collect();
        // closed forms: value at entry of iteration i
        let mut closed: Vec<Option<T>> = vec![None; n];
        let mut terminal: Vec<Option<(u8, T, T)>> = vec![None; n]; // array updates
        loop {
            let mut progress = false;
            for k in 0..n {
                if closed[k].is_some() || terminal[k].is_some() {
                    continue;
                }
                let sub: Vec<(T, T)> = (0..n).filter_map(|j| closed[j].map(|c| (cars[j].sym, c))).collect();
                let nx = self.tm.subst(m[k], &sub);
                let un: Vec<T> = (0..n).filter(|j| closed[*j].is_none()).map(|j| cars[j].sym).collect();
                if let Some(c) = self.closed_form(cars[k].sym, cars[k].init, nx, i, &un) {
                    closed[k] = Some(c);
                    progress = true;
                }
            }
            if !progress {
                break;
            }
        }
        // a mask that is halved: 2^(k-i) while it is not zero
        for k in 0..n {
            let Some(c) = closed[k] else { continue };
            let (kk, ii) = match self.tm.n(c).clone() {
                Node::App(f, x) if f == "halve" => (x[0], x[1]),
                _ => continue,
            };
            let one = self.tm.one;
            let mut trips = self.tm.add(kk, one);
            if count.is_none() && e_ret == ff {
                let e2 = self.tm.subst1(e, cars[k].sym, c);
                // stops above one: 2^(k-i) <= t
                let mut above = false;
                for t in 1..65i64 {
                    let tt = self.tm.int(t);
                    let (p, q) = (self.tm.lt(tt, c), self.tm.lt(c, tt));
                    let np = self.tm.not(p);
                    let less = if e2 == np {
                        63 - (t as u64).leading_zeros() as i64
                    } else if e2 == q && t > 1 {
                        63 - ((t - 1) as u64).leading_zeros() as i64
                    } else {
                        continue;
                    };
                    let d = self.tm.int(-less);
                    let pure_exit = cars.iter().all(|x| {
                        let v = self.restrict(x.next, e);
                        v == x.sym || x.sym == cars[k].sym
                    });
                    if pure_exit && brkval.is_none() {
                        trips = self.tm.add(kk, d);
                        count = Some(trips);
                        e = ff;
                        above = true;
                    }
                    break;
                }
                let e2 = if above { e2 } else { self.tm.subst1(e, cars[k].sym, c) };
                let z = self.tm.zero;
                let (p, q) = (self.tm.lt(z, c), self.tm.eq(c, z));
                let (np, pure_exit) = (
                    self.tm.not(p),
                    cars.iter().all(|x| {
                        let v = self.restrict(x.next, e);
                        v == x.sym || x.sym == cars[k].sym || {
                            let y = self.tm.subst1(v, cars[k].sym, z);
                            y == x.sym
                        }
                    }),
                );
                if (e2 == np || e2 == q) && pure_exit && brkval.is_none() {
                    count = Some(trips);
                    e = ff;
                }
            }
            let within = match count {
                Some(c) => match (self.tm.as_i64(c), self.tm.as_i64(trips)) {
                    (Some(a), Some(b)) => a <= b,
                    _ => false,
                },
                None => false,
            };
            if within {
                let two = self.tm.int(2);
                let d = self.tm.sub(kk, ii);
                closed[k] = Some(self.tm.app("pow", vec![two, d]));
            }
        }
        let sub: Vec<(T, T)> = (0..n).filter_map(|j| closed[j].map(|c| (cars[j].sym, c))).collect();
        // bounded while loops
        if count.is_none() && e_ret == ff {
            let e2 = self.tm.subst(e, &sub);
            let un: Vec<T> = (0..n).filter(|j| closed[*j].is_none()).map(|j| cars[j].sym).collect();
            if !self.mentions(e2, &un) {
                let cont = self.tm.not(e2);
                // leaving iterations change nothing
                let pure_exit = cars.iter().all(|c| {
                    let x = self.restrict(c.next, e);
                    x == c.sym
                });
                if pure_exit && brkval.is_none() && e != ff {
                    if let Some(cn) = self.trip_count(cont, i) {
                        count = Some(cn);
                        e = ff;
                    }
                }
            }
        }
        let (e_ret, e_brk) = if e == ff { (ff, ff) } else { (e_ret, e_brk) };
        if let (Some(c), true) = (count, e == ff) {
            if let Some(kk) = self.tm.as_i64(c) {
                if kk <= 0 {
                    return;
                }
            }
        }
        let nexts: Vec<T> = if e == ff { m.clone() } else { cars.iter().map(|c| c.next).collect() };
        // array updates
        if e == ff {
            for k in 0..n {
                if closed[k].is_some() {
                    continue;
                }
                let others: Vec<T> = (0..n).filter(|j| *j != k && closed[*j].is_none()).map(|j| cars[j].sym).collect();
                let used_elsewhere = (0..n).any(|j| {
                    j != k && {
                        let y = self.tm.subst(nexts[j], &sub);
                        self.tm.occurs(y, cars[k].sym)
                    }
                });
                if used_elsewhere {
                    continue;
                }
                let nx = self.tm.subst(nexts[k], &sub);
                if self.mentions(nx, &others) {
                    continue;
                }
                if let Some(f) = self.scatter(cars[k].sym, cars[k].init, nx, i, count) {
                    terminal[k] = Some((0, f, f));
                }
            }
        }
        let e_s = self.tm.subst(e, &sub);
        let un: Vec<usize> = (0..n).filter(|j| closed[*j].is_none()).collect();
        let unsyms: Vec<T> = un.iter().map(|j| cars[*j].sym).collect();
        let e_dep = self.mentions(e_s, &unsyms);
        let inf = self.tm.path("inf");
        let ct = count.unwrap_or(inf);
        let mut finals: Vec<T> = vec![];
        let any;
        let mut rv = None;
        let mut bv = None;
        let (mut f_ret, mut f_brk) = (ff, ff);
        if e == ff {
            any = ff;
            for k in 0..n {
                let f = match (closed[k], terminal[k]) {
                    (Some(c), _) => self.tm.subst1(c, i, ct),
                    (_, Some((_, f, _))) => f,
                    _ => self.fold(k, &cars, &nexts, &sub, &closed, i, ct, ff, &[]),
                };
                finals.push(f);
            }
        } else if !e_dep {
            let eb = self.tm.abstract1(e_s, i);
            any = match count {
                Some(c) => self.tm.any(c, eb),
                None => tt,
            };
            let lam = self.tm.mk(Node::Lam(1, eb));
            let first = self.tm.app("first", vec![ct, lam]);
            for k in 0..n {
                let f = match closed[k] {
                    Some(c) => {
                        let x = self.restrict(nexts[k], e);
                        let x = self.tm.subst(x, &sub);
                        if self.mentions(x, &unsyms) {
                            self.fold(k, &cars, &nexts, &sub, &closed, i, ct, e_s, &[])
                        } else {
                            let x = self.tm.subst1(x, i, first);
                            let y = self.tm.subst1(c, i, ct);
                            self.tm.ite(any, x, y)
                        }
                    }
                    None => self.fold(k, &cars, &nexts, &sub, &closed, i, ct, e_s, &[]),
                };
                finals.push(f);
            }
            let at = |s: &mut Ev, x: T| {
                let x = s.restrict(x, e);
                let x = s.tm.subst(x, &sub);
                if s.mentions(x, &unsyms) {
                    return s.tm.opaque("value depends on a folded variable at the exit");
                }
                s.tm.subst1(x, i, first)
            };
            if let Some(x) = retval {
                rv = Some(at(self, x));
            }
            if let Some(x) = brkval {
                bv = Some(at(self, x));
            }
            if e_brk == ff {
                f_ret = any;
            } else if e_ret == ff {
                f_brk = any;
            } else {
                let r = at(self, e_ret);
                f_ret = self.tm.and(any, r);
                let b = at(self, e_brk);
                f_brk = self.tm.and(any, b);
            }
        } else {
            any = tt;
            let _ = any;
            for k in 0..n {
                // all values are decided by the same exit
                let f = self.fold(k, &cars, &nexts, &[], &vec![None; n], i, ct, e, &[]);
                finals.push(f);
            }
            let und = self.tm.mk(Node::App("undef".into(), vec![]));
            let mk = |s: &mut Ev, x: T, init: T| s.fold(usize::MAX, &cars, &nexts, &[], &vec![None; n], i, ct, e, &[(init, x)]);
            if count.is_none() && e_ret == ff {
                f_brk = tt;
            } else if count.is_none() && e_brk == ff {
                f_ret = tt;
            } else {
                if e_ret != ff {
                    f_ret = mk(self, e_ret, ff);
                }
                if e_brk != ff {
                    f_brk = mk(self, e_brk, ff);
                }
            }
            if let Some(x) = retval {
                rv = Some(mk(self, x, und));
            }
            if let Some(x) = brkval {
                bv = Some(mk(self, x, und));
            }
        }
        for ((c, f), cell) in cars.iter().zip(finals).zip(&cells) {
            let f = match cell {
                Some((init, key)) => self.tm.store(*init, *key, f),
                None => f,
            };
            self.car_write(st, c.root, &c.path, f);
        }
        if f_ret != ff {
            let v = match rv {
                Some(t) => Val::T(t, ret_ty),
                None => self.unit(),
            };
            let nv = match st.retval.clone() {
                Some(o) if st.ret != ff => self.merge_val(st, f_ret, &v, &o),
                _ => v,
            };
            st.retval = Some(nv);
            st.ret = self.tm.or(st.ret, f_ret);
        }
        if f_brk != ff {
            if let Some(b) = bv {
                st.brkval = Some(Val::T(b, Ty::Unk));
            }
            st.brk = self.tm.or(st.brk, f_brk);
        }
        if panics != ff {
            let p = self.tm.subst(panics, &sub);
            if !self.mentions(p, &unsyms) {
                let pb = self.tm.abstract1(p, i);
                let a = match count {
                    Some(c) => self.tm.any(c, pb),
                    None => {
                        let l = self.tm.mk(Node::Lam(1, pb));
                        self.tm.app("panics_in_loop", vec![l])
                    }
                };
                st.panics = self.tm.or(st.panics, a);
            }
        }
    }
    /// the carried variable is an array updated at one index only, and read at that
    /// index or at indices known to be different: the index, and what each read becomes
    fn single_cell(&mut self, k: usize, cars: &[Car], i: T, more: &[T], opt: &[Option<T>]) -> Option<(T, Vec<(T, Option<T>)>)> {
        let sym = cars[k].sym;
        let (key, v) = match self.tm.n(cars[k].next).clone() {
            Node::Store(b, key, v) if b == sym => (key, v),
            _ => return None,
        };
        let mut syms: Vec<T> = cars.iter().map(|c| c.sym).collect();
        syms.push(i);
        if self.mentions(key, &syms) {
            return None;
        }
        let mut roots: Vec<T> = vec![v];
        for (j, c) in cars.iter().enumerate() {
            if j != k {
                roots.push(c.next);
            }
        }
        roots.extend(more.iter().copied());
        roots.extend(opt.iter().flatten().copied());
        let mut reads: Vec<(T, T)> = vec![];
        for r in &roots {
            self.tm.walk(*r, &mut |t, n| {
                if let Node::Index(a, e) = n {
                    if *a == sym && !reads.contains(&(t, *e)) {
                        reads.push((t, *e));
                    }
                }
            });
        }
        let mut subs = vec![];
        for (t, e) in reads {
            if e == key {
                subs.push((t, None));
                continue;
            }
            let q = self.tm.eq(e, key);
            let neg = self.tm.zero;
            let neg = self.tm.lt(i, neg);
            if q != self.tm.ff && crate::lin::consistent(&self.tm, &[(q, true), (neg, false)]) {
                return None;
            }
            let mut base = cars[k].init;
            while let Node::Store(b, kk, _) = self.tm.n(base).clone() {
                if kk != key {
                    break;
                }
                base = b;
            }
            let x = self.tm.index(base, e);
            subs.push((t, Some(x)));
        }
        // nothing else may look at the array
        let probe = self.tm.fresh("probe");
        let ps: Vec<(T, T)> = subs.iter().map(|(t, _)| (*t, probe)).collect();
        for r in roots {
            let x = self.tm.subst(r, &ps);
            if self.tm.occurs(x, sym) {
                return None;
            }
        }
        Some((key, subs))
    }
    /// number of iterations while cont(i) holds, for a linear bound
    fn trip_count(&mut self, cont: T, i: T) -> Option<T> {
        // collect the comparison
        let (p, kind) = match self.tm.n(cont).clone() {
            Node::Lt0(m) => (m, 0),
            Node::Ite(c, a, b) => match (self.tm.n(c).clone(), a == self.tm.ff) {
                (Node::Lt0(m), true) if b == self.tm.tt => (m, 1),
                (Node::Eq0(m), true) if b == self.tm.tt => (m, 3),
                (Node::Lt0(m), true) => {
                    // not m<0 and not m=0
                    let e = self.tm.mk(Node::Eq0(m));
                    let ne = self.tm.not(e);
                    if b == ne {
                        (m, 2)
                    } else {
                        return None;
                    }
                }
                _ => return None,
            },
            _ => return None,
        };
        // p = alpha * i + r
        let z = self.tm.zero;
        let r = self.tm.subst1(p, i, z);
        let o = self.tm.one;
        let p1 = self.tm.subst1(p, i, o);
        let d = self.tm.sub(p1, r);
        let alpha = self.tm.as_num(d)?;
        let li = self.tm.mul(d, i);
        let lin = self.tm.add(li, r);
        if lin != p || self.tm.occurs(r, i) {
            return None;
        }
        let m1 = self.tm.int(-1);
        match kind {
            0 if alpha == rat(1) => Some(self.tm.mul(r, m1)),
            2 if alpha == rat(-1) => Some(r),
            1 if alpha == rat(-1) => Some(self.tm.add(r, o)),
            3 if alpha == rat(1) => Some(self.tm.mul(r, m1)),
            3 if alpha == rat(-1) => Some(r),
            0 if alpha.is_positive() => {
                let nr = self.tm.mul(r, m1);
                let a = self.tm.num(alpha);
                Some(self.tm.app("ceil_div", vec![nr, a]))
            }
            2 if alpha.is_negative() => {
                let a = self.tm.num(-alpha);
                Some(self.tm.app("ceil_div", vec![r, a]))
            }
            _ => None,
        }
    }
    /// value at entry of iteration i as a closed form
    fn closed_form(&mut self, sym: T, init: T, nx: T, i: T, un: &[T]) -> Option<T> {
        let one = self.tm.one;
        let zero = self.tm.zero;
        if nx == sym {
            return Some(init);
        }
        if !self.mentions(nx, un) {
            // overwritten each time
            let im = self.tm.sub(i, one);
            let prev = self.tm.subst1(nx, i, im);
            if prev == init {
                return Some(init);
            }
            let is0 = self.tm.eq(i, zero);
            return Some(self.tm.ite(is0, init, prev));
        }
        // sequences
        if let Node::Seq(b, items) = self.tm.n(nx).clone() {
            if b == sym {
                let mut tmp = vec![];
                // items must not mention the unresolved
                let e = self.tm.empty_seq_base();
                let probe = self.tm.seq(e, items.clone());
                if !self.mentions(probe, un) {
                    for it in items {
                        tmp.push(self.abs_item(it, i));
                    }
                    return Some(self.tm.seq_on(init, vec![Item::Loop(i, tmp)]));
                }
            }
            return None;
        }
        if self.tm.is_bool(nx) || self.tm.is_bool(init) {
            let (tt, ff) = (self.tm.tt, self.tm.ff);
            let t = self.tm.subst1(nx, sym, tt);
            let f = self.tm.subst1(nx, sym, ff);
            if !self.mentions(t, un) && !self.mentions(f, un) {
                if t == tt {
                    let fb = self.tm.abstract1(f, i);
                    let a = self.tm.any(i, fb);
                    return Some(self.tm.or(init, a));
                }
                if f == ff {
                    let nt = self.tm.not(t);
                    let tb = self.tm.abstract1(nt, i);
                    let a = self.tm.any(i, tb);
                    let na = self.tm.not(a);
                    return Some(self.tm.and(init, na));
                }
            }
            return None;
        }
        if matches!(
            self.tm.n(nx),
            Node::Struct(..) | Node::With(..) | Node::Array(_) | Node::Store(..) | Node::Repeat(..)
        ) {
            return None;
        }
        // halving and doubling of a power of two
        if let Some(k) = self.tm.as_i64(init) {
            if k > 0 && k & (k - 1) == 0 {
                let two = self.tm.int(2);
                let e = self.tm.int(k.trailing_zeros() as i64);
                if nx == self.tm.app("idiv", vec![sym, two]) {
                    return Some(self.tm.mk(Node::App("halve".into(), vec![e, i])));
                }
                if nx == self.tm.mul(sym, two) {
                    let s = self.tm.add(e, i);
                    return Some(self.tm.app("pow", vec![two, s]));
                }
            }
        }
        // sums
        let d = self.tm.sub(nx, sym);
        if !self.mentions(d, un) {
            let db = self.tm.abstract1(d, i);
            let s = self.tm.sum(i, db);
            return Some(self.tm.add(init, s));
        }
        None
    }
    fn abs_item(&mut self, it: Item, i: T) -> Item {
        let e = self.tm.empty_seq_base();
        // wrap in a sequence so that the generic abstraction handles the binders
        let probe = self.tm.mk(Node::Seq(e, vec![it]));
        let a = self.tm.abstract1(probe, i);
        match self.tm.n(a).clone() {
            Node::Seq(_, v) if v.len() == 1 => v[0].clone(),
            Node::Seq(_, v) => {
                let one = self.tm.one;
                Item::Loop(one, v)
            }
            Node::Array(v) if v.len() == 1 => {
                let tt = self.tm.tt;
                Item::One(tt, v[0])
            }
            _ => {
                let tt = self.tm.tt;
                Item::Splice(tt, a)
            }
        }
    }
    /// n = a with a[key(i)] := v(i, a[key(i)])
    fn scatter(&mut self, sym: T, init: T, nx: T, i: T, count: Option<T>) -> Option<T> {
        let count = count?;
        if let Node::Store(b, key, v) = self.tm.n(nx).clone() {
            if b != sym || self.tm.occurs(key, sym) {
                return None;
            }
            let old = self.tm.index(sym, key);
            let mark = self.tm.fresh("old");
            let v2 = self.tm.subst1(v, old, mark);
            if self.tm.occurs(v2, sym) {
                return None;
            }
            let len = self.tm.len(init);
            if key == i && len == count {
                let o = self.tm.index(init, i);
                let v3 = self.tm.subst1(v2, mark, o);
                let vb = self.tm.abstract1(v3, i);
                let e = self.tm.empty_seq_base();
                let tt = self.tm.tt;
                return Some(self.tm.seq(e, vec![Item::Gen(vec![count], tt, vb)]));
            }
            let kb = self.tm.abstract1(key, i);
            let kl = self.tm.mk(Node::Lam(1, kb));
            let vb = self.tm.abstract_n(v2, &[i, mark]);
            let vl = self.tm.mk(Node::Lam(2, vb));
            return Some(self.tm.mk(Node::App("scatter".into(), vec![init, count, kl, vl])));
        }
        None
    }
    #[allow(clippy::too_many_arguments)]
    fn fold(
        &mut self,
        k: usize,
        cars: &[Car],
        nexts: &[T],
        sub: &[(T, T)],
        closed: &[Option<T>],
        i: T,
        ct: T,
        e: T,
        extra: &[(T, T)],
    ) -> T {
        // nodes: carried variables (not closed) plus the extra pseudo variable
        let nx: Vec<T> = nexts.iter().map(|x| self.tm.subst(*x, sub)).collect();
        let mut want: Vec<usize> = vec![];
        let mut queue: Vec<T> = vec![e];
        if k != usize::MAX {
            want.push(k);
            queue.push(nx[k]);
        }
        for (_, x) in extra {
            queue.push(*x);
        }
        while let Some(t) = queue.pop() {
            for j in 0..cars.len() {
                if closed[j].is_none() && !want.contains(&j) && self.tm.occurs(t, cars[j].sym) {
                    want.push(j);
                    queue.push(nx[j]);
                }
            }
        }
        // selected variable first
        let mut rest: Vec<usize> = want.iter().copied().filter(|j| *j != k).collect();
        rest.sort_by_key(|j| cars[*j].init);
        let perms: Vec<Vec<usize>> = if rest.len() <= 4 { permutations(&rest) } else { vec![rest] };
        let mut best: Option<T> = None;
        for p in perms {
            let mut syms = vec![i];
            let mut inits = vec![];
            let mut raw = vec![];
            if k != usize::MAX {
                syms.push(cars[k].sym);
                inits.push(cars[k].init);
                raw.push(nx[k]);
            }
            for (a, x) in extra {
                let d = self.tm.fresh("extra");
                syms.push(d);
                inits.push(*a);
                raw.push(*x);
            }
            for j in &p {
                syms.push(cars[*j].sym);
                inits.push(cars[*j].init);
                raw.push(nx[*j]);
            }
            let ns: Vec<T> = raw.iter().map(|x| self.tm.abstract_n(*x, &syms)).collect();
            let eb = self.tm.abstract_n(e, &syms);
            let f = self.tm.mk(Node::Fold(ct, inits, ns, eb, 0));
            best = Some(best.map_or(f, |b: T| b.min(f)));
        }
        best.unwrap()
    }
    // ---------- loop expressions ----------
    fn loop_env(&mut self, st: &mut State, env: &Env, label: &Option<syn::Label>) -> Env {
        let mut e = env.clone();
        let u = self.unit();
        let r = self.alloc(st, u);
        e.bind("'innermost", r);
        if let Some(l) = label {
            e.bind(&format!("'{}", l.name.ident), r);
        }
        e
    }
    fn enter(&mut self, st: &mut State) -> (T, T, T, Option<Val>) {
        let base = self.stop(st);
        let saved = (st.brk, st.cont, st.base, st.brkval.take());
        st.base = base;
        st.brk = self.tm.ff;
        st.cont = self.tm.ff;
        saved
    }
    fn leave(&mut self, st: &mut State, saved: (T, T, T, Option<Val>)) {
        st.brk = saved.0;
        st.cont = saved.1;
        st.base = saved.2;
        st.brkval = saved.3;
    }
    pub fn for_loop(&mut self, st: &mut State, env: &Env, f: &syn::ExprForLoop) -> Val {
        let v = self.expr(st, env, &f.expr);
        // a reference to a mutable collection iterates by mutable reference
        let it = self.into_iter(st, v);
        let env = self.loop_env(st, env, &f.label);
        let saved = self.enter(st);
        self.drive(st, &it, &mut |s, st, _, x| {
            let mut e = env.clone();
            s.bind_pat(st, &mut e, &f.pat, x);
            s.block(st, &e, &f.body);
            st.cont = s.tm.ff;
        });
        self.leave(st, saved);
        self.unit()
    }
    pub fn while_loop(&mut self, st: &mut State, env: &Env, w: &syn::ExprWhile) -> Val {
        // while let Some(x) = it.next()
        if let syn::Expr::Let(l) = strip(&w.cond) {
            if let (syn::Expr::MethodCall(m), syn::Pat::TupleStruct(ts)) = (strip(&l.expr), &*l.pat) {
                if m.method == "next" && ts.elems.len() == 1 {
                    if let syn::Expr::Path(p) = strip(&m.receiver) {
                        if let Some(r) = p.path.get_ident().and_then(|i| env.get(&i.to_string())) {
                            if let Val::It(it) = self.read_root(st, r) {
                                let env = self.loop_env(st, env, &w.label);
                                let saved = self.enter(st);
                                self.drive(st, &it, &mut |s, st, _, x| {
                                    let mut e = env.clone();
                                    s.bind_pat(st, &mut e, &ts.elems[0], x);
                                    s.block(st, &e, &w.body);
                                    st.cont = s.tm.ff;
                                });
                                self.leave(st, saved);
                                st.vars[r] = Some(Val::It(Box::new(It::Items(vec![]))));
                                return self.unit();
                            }
                        }
                    }
                }
            }
        }
        let env = self.loop_env(st, env, &w.label);
        let saved = self.enter(st);
        // in a law on an instance of fixed size: as long as the condition is decided
        for _ in 0..self.opts.unroll {
            let mut probe = st.clone();
            let (c, e2) = self.cond(&mut probe, &env, &w.cond);
            let c = self.decided(c);
            if c != self.tm.tt && c != self.tm.ff {
                break;
            }
            *st = probe;
            if c == self.tm.tt {
                self.block(st, &e2, &w.body);
                st.cont = self.tm.ff;
            }
            let stop = self.tm.or(st.ret, st.brk);
            if c == self.tm.ff || st.dead || stop == self.tm.tt {
                self.leave(st, saved);
                return self.unit();
            }
            if stop != self.tm.ff {
                break;
            }
        }
        self.run_loop(st, None, &mut |s, st, _| {
            let (c, e2) = s.cond(st, &env, &w.cond);
            s.branch(
                st,
                c,
                &mut |s, st| {
                    s.block(st, &e2, &w.body);
                    st.cont = s.tm.ff;
                    s.unit()
                },
                &mut |s, st| {
                    let tt = s.tm.tt;
                    st.brk = tt;
                    s.unit()
                },
            );
        });
        self.leave(st, saved);
        self.unit()
    }
    pub fn plain_loop(&mut self, st: &mut State, env: &Env, l: &syn::ExprLoop) -> Val {
        let env = self.loop_env(st, env, &l.label);
        let saved = self.enter(st);
        self.run_loop(st, None, &mut |s, st, _| {
            s.block(st, &env, &l.body);
            st.cont = s.tm.ff;
        });
        let v = st.brkval.clone();
        self.leave(st, saved);
        match v {
            Some(v) => v,
            None => self.unit(),
        }
    }
    pub fn rc_clo(&self, c: Clo) -> Rc<Clo> {
        Rc::new(c)
    }
}
pub fn permutations(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(k);
        for mut p in permutations(&r) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}
