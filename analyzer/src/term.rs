//! Hash-consed value graph. Every constructor normalises, so that two values
//! that are equal by the algebra implemented here get the same id.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type T = u32;
pub type Rat = BigRational;
/// product of atoms with rational exponents, sorted by atom id
pub type Mono = Vec<(T, Rat)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Item {
    /// one element, present if the guard holds
    One(T, T),
    /// comprehension: counts (each under the binders before it), guard and
    /// value under all binders
    Gen(Vec<T>, T, T),
    /// splice another (opaque) sequence, if the guard holds
    Splice(T, T),
    /// loop whose body is a list of items (1 binder)
    Loop(T, Vec<Item>),
}

/// start of the run
pub fn whole_run() -> std::time::Instant {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    *START.get_or_init(std::time::Instant::now)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Poly(Vec<(Mono, Rat)>),
    Str(String),
    Bool(bool),
    Sym(String),
    BV(u32),
    Path(String),
    Field(T, String),
    Index(T, T),
    Struct(String, Vec<(String, T)>),
    With(T, Vec<(String, T)>),
    Array(Vec<T>),
    Store(T, T, T),
    Repeat(T, T),
    Ite(T, T, T),
    Is(T, String),
    Lt0(T),
    Eq0(T),
    App(String, Vec<T>),
    Seq(T, Vec<Item>),
    Sum(T, T),
    Any(T, T),
    Lam(u32, T),
    /// count, inits, nexts (binders: i = BV(n) outermost .. see mk_fold), exit, selected
    Fold(T, Vec<T>, Vec<T>, T, u32),
    /// inits, continue-condition, nexts, selected
    Loop(Vec<T>, T, Vec<T>, u32),
    Opaque(String),
}

pub struct Terms {
    pub keep_abs: bool,
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    ite_memo: HashMap<(T, T, T), T>,
    fv_memo: HashMap<T, (bool, u32)>, // (has opaque, max bv+1 free)
    fresh: u32,
    pub enums: HashMap<String, Vec<String>>, // variant "Enum::V" -> sibling list
    pub var_enum: HashMap<String, String>,
    pub tt: T,
    pub ff: T,
    pub zero: T,
    pub one: T,
    pub positive: BTreeSet<T>,
    /// values of integer type
    pub ints: BTreeSet<T>,
    boolean: Vec<bool>,
    cof_memo: HashMap<(T, T, bool), T>,
    field_memo: HashMap<(T, String), T>,
    con_memo: HashMap<(T, T), T>,
    /// known lengths of array arguments (symbol, nesting depth)
    pub lens: HashMap<(T, u32), T>,
    pub fuel: u64,
    pub started: std::time::Instant,
}

pub fn rat(i: i64) -> Rat {
    Rat::from_integer(BigInt::from(i))
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            keep_abs: false,
            nodes: vec![],
            map: HashMap::new(),
            ite_memo: HashMap::new(),
            fv_memo: HashMap::new(),
            fresh: 0,
            enums: HashMap::new(),
            var_enum: HashMap::new(),
            tt: 0,
            ff: 0,
            zero: 0,
            one: 0,
            positive: BTreeSet::new(),
            ints: BTreeSet::new(),
            boolean: vec![],
            cof_memo: HashMap::new(),
            field_memo: HashMap::new(),
            con_memo: HashMap::new(),
            lens: HashMap::new(),
            fuel: 6_000_000,
            started: std::time::Instant::now(),
        };
        t.tt = t.mk(Node::Bool(true));
        t.ff = t.mk(Node::Bool(false));
        t.zero = t.num(rat(0));
        t.one = t.num(rat(1));
        t
    }
    /// deterministic work budget
    pub fn burn(&mut self, n: u64) {
        if self.fuel < n {
            panic!("budget exhausted");
        }
        // a last resort against runaway analyses
        if self.fuel >> 10 != (self.fuel - n) >> 10 {
            if self.started.elapsed().as_secs() > 40 || whole_run().elapsed().as_secs() > 400 {
                panic!("budget exhausted");
            }
            if self.fuel >> 14 != (self.fuel - n) >> 14 {
                let pages: u64 = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse().ok())).unwrap_or(0);
                if pages > 3 << 20 {
                    panic!("budget exhausted");
                }
            }
        }
        self.fuel -= n;
    }
    pub fn mk(&mut self, n: Node) -> T {
        self.burn(1);
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        self.burn(match &n {
            Node::Poly(v) => v.len() as u64 / 4,
            _ => 0,
        });
        let i = self.nodes.len() as T;
        let b = match &n {
            Node::Bool(_) | Node::Is(..) | Node::Lt0(_) | Node::Eq0(_) | Node::Any(..) => true,
            Node::Ite(_, a, b) => self.is_bool(*a) || self.is_bool(*b),
            _ => false,
        };
        self.boolean.push(b);
        self.nodes.push(n.clone());
        self.map.insert(n, i);
        i
    }
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    pub fn sym(&mut self, s: &str) -> T {
        self.mk(Node::Sym(s.to_string()))
    }
    pub fn fresh(&mut self, s: &str) -> T {
        self.fresh += 1;
        let f = self.fresh;
        self.mk(Node::Sym(format!("{s}%{f}")))
    }
    pub fn opaque(&mut self, s: &str) -> T {
        self.mk(Node::Opaque(s.to_string()))
    }
    pub fn path(&mut self, s: &str) -> T {
        self.mk(Node::Path(s.to_string()))
    }
    pub fn str(&mut self, s: &str) -> T {
        self.mk(Node::Str(s.to_string()))
    }
    pub fn bool(&self, b: bool) -> T {
        if b {
            self.tt
        } else {
            self.ff
        }
    }
    pub fn num(&mut self, r: Rat) -> T {
        if r.is_zero() {
            self.mk(Node::Poly(vec![]))
        } else {
            self.mk(Node::Poly(vec![(vec![], r)]))
        }
    }
    pub fn int(&mut self, i: i64) -> T {
        self.num(rat(i))
    }
    pub fn as_num(&self, t: T) -> Option<Rat> {
        match self.n(t) {
            Node::Poly(v) if v.is_empty() => Some(rat(0)),
            Node::Poly(v) if v.len() == 1 && v[0].0.is_empty() => Some(v[0].1.clone()),
            _ => None,
        }
    }
    pub fn as_i64(&self, t: T) -> Option<i64> {
        let r = self.as_num(t)?;
        if r.is_integer() {
            r.to_integer().to_i64()
        } else {
            None
        }
    }
    pub fn is_bool(&self, t: T) -> bool {
        self.boolean[t as usize]
    }

    // ---------- polynomials ----------
    fn to_poly(&self, t: T) -> Vec<(Mono, Rat)> {
        match self.n(t) {
            Node::Poly(v) => v.clone(),
            _ => vec![(vec![(t, Rat::one())], Rat::one())],
        }
    }
    fn from_map(&mut self, m: BTreeMap<Mono, Rat>) -> T {
        let v: Vec<(Mono, Rat)> = m.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        if v.len() == 1 && v[0].1.is_one() && v[0].0.len() == 1 && v[0].0[0].1.is_one() {
            return v[0].0[0].0;
        }
        self.mk(Node::Poly(v))
    }
    fn ite_parts(&self, t: T) -> Option<(T, T, T)> {
        match self.n(t) {
            Node::Ite(c, a, b) => Some((*c, *a, *b)),
            _ => None,
        }
    }
    /// number of Ite nodes at the top of t, up to a limit
    fn ite_size(&self, t: T, limit: usize) -> usize {
        let mut n = 0;
        let mut st = vec![t];
        let mut seen: Vec<T> = vec![];
        while let Some(x) = st.pop() {
            if let Node::Ite(_, a, b) = self.n(x) {
                if seen.contains(&x) {
                    continue;
                }
                seen.push(x);
                n += 1;
                if n > limit {
                    return n;
                }
                st.push(*a);
                st.push(*b);
            }
        }
        n
    }
    pub fn lift(&mut self, args: &[T], f: &mut dyn FnMut(&mut Terms, &[T]) -> T) -> T {
        let mut memo = HashMap::new();
        self.lift_rec(args, f, &mut memo)
    }
    fn lift_rec(&mut self, args: &[T], f: &mut dyn FnMut(&mut Terms, &[T]) -> T, done: &mut HashMap<Vec<T>, T>) -> T {
        if let Some(r) = done.get(args) {
            return *r;
        }
        let r = self.lift_inner(args, f, done);
        done.insert(args.to_vec(), r);
        r
    }
    fn lift_inner(&mut self, args: &[T], f: &mut dyn FnMut(&mut Terms, &[T]) -> T, done: &mut HashMap<Vec<T>, T>) -> T {
        let total: usize = args.iter().map(|a| self.ite_size(*a, 64)).sum();
        if total == 0 {
            return f(self, args);
        }
        if total > 64 {
            if args.len() == 1 {
                let mut memo = HashMap::new();
                return self.lift1(args[0], f, &mut memo);
            }
            let w: Vec<T> = args
                .iter()
                .map(|a| if self.ite_parts(*a).is_some() { self.mk(Node::App("blob".into(), vec![*a])) } else { *a })
                .collect();
            return f(self, &w);
        }
        // smallest top atom
        let mut v: Option<T> = None;
        for a in args {
            if let Some((c, _, _)) = self.ite_parts(*a) {
                v = Some(v.map_or(c, |x: T| x.min(c)));
            }
        }
        let v = v.unwrap();
        let hi: Vec<T> = args.iter().map(|a| self.cof(*a, v, true)).collect();
        let lo: Vec<T> = args.iter().map(|a| self.cof(*a, v, false)).collect();
        let h = self.lift_rec(&hi, f, done);
        let l = self.lift_rec(&lo, f, done);
        self.ite(v, h, l)
    }
    fn lift1(&mut self, t: T, f: &mut dyn FnMut(&mut Terms, &[T]) -> T, memo: &mut HashMap<T, T>) -> T {
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let r = match self.ite_parts(t) {
            Some((c, a, b)) => {
                let x = self.lift1(a, f, memo);
                let y = self.lift1(b, f, memo);
                self.ite(c, x, y)
            }
            None => f(self, &[t]),
        };
        memo.insert(t, r);
        r
    }
    fn cof(&mut self, t: T, atom: T, val: bool) -> T {
        match self.n(t) {
            Node::Ite(c, a, b) if *c == atom => {
                if val {
                    *a
                } else {
                    *b
                }
            }
            _ => t,
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        if a == self.zero {
            return b;
        }
        if b == self.zero {
            return a;
        }
        if self.ite_parts(a).is_some() || self.ite_parts(b).is_some() {
            return self.lift(&[a, b], &mut |s, x| s.add0(x[0], x[1]));
        }
        self.add0(a, b)
    }
    fn add0(&mut self, a: T, b: T) -> T {
        // component-wise for arrays/structs is handled by the evaluator
        let mut m: BTreeMap<Mono, Rat> = BTreeMap::new();
        for (k, c) in self.to_poly(a).into_iter().chain(self.to_poly(b)) {
            *m.entry(k).or_insert_with(Rat::zero) += c;
        }
        self.from_map(m)
    }
    pub fn neg(&mut self, a: T) -> T {
        let m1 = self.int(-1);
        self.mul(a, m1)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if a == self.one {
            return b;
        }
        if b == self.one {
            return a;
        }
        if a == self.zero || b == self.zero {
            return self.zero;
        }
        if self.ite_parts(a).is_some() || self.ite_parts(b).is_some() {
            return self.lift(&[a, b], &mut |s, x| s.mul0(x[0], x[1]));
        }
        self.mul0(a, b)
    }
    fn monic(&mut self, t: T) -> (Rat, T) {
        let p = self.to_poly(t);
        if p.is_empty() {
            return (Rat::one(), t);
        }
        let lc = p[0].1.clone();
        if lc.is_one() {
            return (lc, t);
        }
        let m: BTreeMap<Mono, Rat> = p.into_iter().map(|(k, c)| (k, c / &lc)).collect();
        (lc, self.from_map(m))
    }
    fn mul0(&mut self, a: T, b: T) -> T {
        let pa = self.to_poly(a);
        let pb = self.to_poly(b);
        self.burn((pa.len() * pb.len()) as u64 + 1);
        // cancellation p * (q / p)
        for (x, y, p) in [(a, &pb, &pa), (b, &pa, &pb)] {
            if p.len() > 1 {
                let (lc, mo) = self.monic(x);
                if !y.is_empty()
                    && y.iter()
                        .all(|(m, _)| m.iter().any(|(t, e)| *t == mo && e.is_negative()))
                {
                    let mut m: BTreeMap<Mono, Rat> = BTreeMap::new();
                    for (mono, c) in y.clone() {
                        let mm: Mono = mono
                            .into_iter()
                            .filter_map(|(t, e)| {
                                if t == mo {
                                    let e2 = e + Rat::one();
                                    if e2.is_zero() {
                                        None
                                    } else {
                                        Some((t, e2))
                                    }
                                } else {
                                    Some((t, e))
                                }
                            })
                            .collect();
                        *m.entry(mm).or_insert_with(Rat::zero) += c * &lc;
                    }
                    return self.from_map(m);
                }
            }
        }
        if pa.len() * pb.len() > 6000 {
            let (x, y) = if a < b { (a, b) } else { (b, a) };
            return self.mk(Node::App("mul".into(), vec![x, y]));
        }
        let mut m: BTreeMap<Mono, Rat> = BTreeMap::new();
        let mut extra: Vec<T> = vec![];
        for (ka, ca) in &pa {
            for (kb, cb) in &pb {
                let mut mm: BTreeMap<T, Rat> = BTreeMap::new();
                for (t, e) in ka.iter().chain(kb.iter()) {
                    *mm.entry(*t).or_insert_with(Rat::zero) += e;
                }
                let mut expand: Vec<(T, i64)> = vec![];
                let mono: Mono = mm
                    .into_iter()
                    .filter(|(t, e)| {
                        if e.is_zero() {
                            return false;
                        }
                        if let Node::Poly(_) = self.nodes[*t as usize] {
                            if e.is_integer() && e.is_positive() {
                                expand.push((*t, e.to_integer().to_i64().unwrap()));
                                return false;
                            }
                        }
                        true
                    })
                    .collect();
                let c = ca * cb;
                // (c^e)^k = c^(e k)
                let roots: Vec<(T, Rat, Rat, Rat)> = mono
                    .iter()
                    .filter_map(|(t, k)| match &self.nodes[*t as usize] {
                        Node::App(f, x) if f == "pow" => match (self.as_num(x[0]), self.as_num(x[1])) {
                            (Some(c), Some(e)) if c.is_positive() && (&e * k).abs() < rat(200) => Some((*t, c, e, k.clone())),
                            _ => None,
                        },
                        _ => None,
                    })
                    .collect();
                let base = roots.iter().find(|(_, c, _, k)| !k.is_one() || roots.iter().filter(|r| r.1 == *c).count() > 1).map(|r| r.1.clone());
                if let Some(base) = base {
                    let own: Vec<T> = roots.iter().filter(|r| r.1 == base).map(|r| r.0).collect();
                    let total = roots.iter().filter(|r| r.1 == base).fold(Rat::zero(), |s, r| s + &r.2 * &r.3);
                    let rest: Mono = mono.iter().filter(|(u, _)| !own.contains(u)).cloned().collect();
                    let cp = self.const_pow(&base, &total);
                    let mut v = self.mk_mono(rest, c);
                    v = self.mul(v, cp);
                    for (t, e) in expand {
                        for _ in 0..e {
                            v = self.mul(v, t);
                        }
                    }
                    extra.push(v);
                    continue;
                }
                // sin^2 = 1 - cos^2
                let sq = mono.iter().find_map(|(t, e)| match &self.nodes[*t as usize] {
                    Node::App(f, x) if f == "sin" && e.is_integer() && *e >= rat(2) => Some((*t, x[0])),
                    _ => None,
                });
                if let Some((t, x)) = sq {
                    let rest: Mono = mono.iter().map(|(u, e)| if *u == t { (*u, e - rat(2)) } else { (*u, e.clone()) }).filter(|(_, e)| !e.is_zero()).collect();
                    let cs = self.app("cos", vec![x]);
                    let cs2 = self.mul(cs, cs);
                    let one = self.one;
                    let d = self.sub(one, cs2);
                    let mut v = self.mk_mono(rest, c);
                    v = self.mul(v, d);
                    for (t, e) in expand {
                        for _ in 0..e {
                            v = self.mul(v, t);
                        }
                    }
                    extra.push(v);
                    continue;
                }
                // (x / y) * y = x - x % y for integers
                let quot = mono.iter().find_map(|(t, e)| match &self.nodes[*t as usize] {
                    Node::App(f, xy) if f == "idiv" && e.is_one() && mono.iter().any(|(u, k)| *u == xy[1] && k.is_one()) => Some((*t, xy[0], xy[1])),
                    _ => None,
                });
                if let Some((q, x, y)) = quot {
                    let rest: Mono = mono.iter().filter(|(t, _)| *t != q && *t != y).cloned().collect();
                    let rm = self.app("rem", vec![x, y]);
                    self.mark_int(rm);
                    let d = self.sub(x, rm);
                    let mut v = self.mk_mono(rest, c);
                    v = self.mul(v, d);
                    for (t, e) in expand {
                        for _ in 0..e {
                            v = self.mul(v, t);
                        }
                    }
                    extra.push(v);
                    continue;
                }
                if expand.is_empty() {
                    *m.entry(mono).or_insert_with(Rat::zero) += c;
                } else {
                    let mut x = self.mk_mono(mono, c);
                    for (t, e) in expand {
                        for _ in 0..e {
                            x = self.mul(x, t);
                        }
                    }
                    extra.push(x);
                }
            }
        }
        let mut r = self.from_map(m);
        for x in extra {
            r = self.add(r, x);
        }
        r
    }
    fn mk_mono(&mut self, m: Mono, c: Rat) -> T {
        let mut mm = BTreeMap::new();
        mm.insert(m, c);
        self.from_map(mm)
    }
    pub fn pow(&mut self, a: T, e: &Rat) -> T {
        if e.is_zero() {
            return self.one;
        }
        if e.is_one() {
            return a;
        }
        if self.ite_parts(a).is_some() {
            let e = e.clone();
            return self.lift(&[a], &mut |s, x| s.pow(x[0], &e));
        }
        let p = self.to_poly(a);
        if p.is_empty() {
            return self.zero;
        }
        if p.len() == 1 {
            let (m, c) = p[0].clone();
            let cpow: Option<T> = if c.is_one() {
                Some(self.one)
            } else if e.is_integer() {
                let k = e.to_integer().to_i64().unwrap();
                if k.abs() < 200 {
                    let v = num_traits::pow::Pow::pow(&c, k as i32);
                    Some(self.num(v))
                } else {
                    None
                }
            } else if c.is_positive() {
                Some(self.const_pow(&c, e))
            } else {
                None
            };
            let trig = e.is_integer() && e.is_positive() && m.iter().any(|(t, _)| matches!(&self.nodes[*t as usize], Node::App(f, _) if f == "sin"));
            if trig && e.to_integer().to_i64().unwrap() <= 16 {
                let mut r = a;
                for _ in 1..e.to_integer().to_i64().unwrap() {
                    r = self.mul(r, a);
                }
                return r;
            }
            if let Some(cp) = cpow {
                let mm: Mono = m.iter().map(|(t, x)| (*t, x * e)).collect();
                let mt = if mm.is_empty() {
                    self.one
                } else {
                    self.mk_mono(mm, Rat::one())
                };
                return self.mul(cp, mt);
            }
        }
        if e.is_integer() && e.is_positive() && p.len() <= 40 {
            let k = e.to_integer().to_i64().unwrap();
            if k <= 4 {
                let mut r = a;
                for _ in 1..k {
                    r = self.mul(r, a);
                }
                return r;
            }
        }
        // (x y + x z)^e = x^e (y + z)^e
        if p.len() > 1 && p.len() <= 40 {
            let mut rest = a;
            let mut out = self.one;
            for (t, k) in Self::content(&p) {
                if k.is_negative() && !e.is_integer() {
                    continue;
                }
                let inv = self.mk_mono(vec![(t, -k.clone())], Rat::one());
                rest = self.mul(rest, inv);
                let f = self.mk_mono(vec![(t, k * e)], Rat::one());
                out = self.mul(out, f);
            }
            if rest != a {
                let r = self.pow(rest, e);
                return self.mul(out, r);
            }
        }
        let (lc, mo) = self.monic(a);
        if lc.is_one() || !e.is_integer() && !lc.is_positive() {
            return self.mk_mono(vec![(a, e.clone())], Rat::one());
        }
        let l = self.num(lc);
        let lp = self.pow(l, e);
        let mp = self.mk_mono(vec![(mo, e.clone())], Rat::one());
        self.mul(lp, mp)
    }
    /// c^e for a positive number c: the integer part of the exponent is evaluated
    fn const_pow(&mut self, c: &Rat, e: &Rat) -> T {
        if *c < Rat::one() {
            return self.const_pow(&c.recip(), &-e.clone());
        }
        let k = e.floor();
        let f = e - &k;
        let k = k.to_integer().to_i64().unwrap_or(999);
        if k.abs() >= 200 || c.is_one() {
            let ct = self.num(c.clone());
            let en = self.num(e.clone());
            return if c.is_one() { self.one } else { self.mk(Node::App("pow".into(), vec![ct, en])) };
        }
        let v = num_traits::pow::Pow::pow(c, k as i32);
        let n = self.num(v);
        if f.is_zero() {
            return n;
        }
        let ct = self.num(c.clone());
        let en = self.num(f);
        let p = self.mk(Node::App("pow".into(), vec![ct, en]));
        self.mul(n, p)
    }
    pub fn div(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.one;
        }
        let i = self.pow(b, &rat(-1));
        self.mul(a, i)
    }

    // ---------- booleans ----------
    pub fn not(&mut self, a: T) -> T {
        let (t, f) = (self.tt, self.ff);
        if a == t {
            return f;
        }
        if a == f {
            return t;
        }
        self.ite_b(a, f, t)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let f = self.ff;
        self.ite_b(a, b, f)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let t = self.tt;
        self.ite_b(a, t, b)
    }
    /// boolean if-then-else on arbitrary boolean terms
    fn ite_b(&mut self, c: T, a: T, b: T) -> T {
        self.ite(c, a, b)
    }
    fn top_atom(&self, t: T) -> Option<T> {
        match self.n(t) {
            Node::Ite(c, _, _) => Some(*c),
            _ => None,
        }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == self.tt {
            return a;
        }
        if c == self.ff {
            return b;
        }
        if a == b {
            return a;
        }
        if let Some(&r) = self.ite_memo.get(&(c, a, b)) {
            return r;
        }
        let r = self.ite_inner(c, a, b);
        self.ite_memo.insert((c, a, b), r);
        r
    }
    fn ite_inner(&mut self, c: T, a: T, b: T) -> T {
        self.burn(2);
        // division rounded up
        if let Node::Eq0(q) = self.n(c) {
            if let Node::App(f, xy) = self.n(*q).clone() {
                if f == "rem" && xy.len() == 2 {
                    let d = self.sub(b, a);
                    if d == self.one {
                        let low = self.app("idiv", xy.clone());
                        let e = self.sub(a, low);
                        if !self.occurs(e, low) {
                            let up = self.app("ceil_div", xy);
                            return self.add(up, e);
                        }
                    }
                }
            }
        }
        // push into records
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::Struct(n1, f1), Node::Struct(n2, f2))
                if n1 == n2
                    && f1.len() == f2.len()
                    && !f1.is_empty()
                    && f1.iter().zip(&f2).all(|(x, y)| x.0 == y.0) =>
            {
                let fs = f1
                    .iter()
                    .zip(&f2)
                    .map(|(x, y)| (x.0.clone(), self.ite(c, x.1, y.1)))
                    .collect();
                return self.mk_struct(&n1, fs);
            }
            (Node::Array(x), Node::Array(y)) if x.len() == y.len() => {
                let v = x.iter().zip(&y).map(|(p, q)| self.ite(c, *p, *q)).collect();
                return self.mk(Node::Array(v));
            }
            (Node::With(b1, f1), Node::With(b2, f2)) if b1 == b2 => {
                let mut names: BTreeSet<String> = f1.iter().map(|x| x.0.clone()).collect();
                names.extend(f2.iter().map(|x| x.0.clone()));
                let mut r = b1;
                for n in names {
                    let x = self.field(a, &n);
                    let y = self.field(b, &n);
                    let v = self.ite(c, x, y);
                    r = self.with(r, &n, v);
                }
                return r;
            }
            (Node::With(b1, f1), _) if b1 == b => {
                let mut r = b1;
                for (n, x) in f1 {
                    let y = self.field(b1, &n);
                    let v = self.ite(c, x, y);
                    r = self.with(r, &n, v);
                }
                return r;
            }
            (_, Node::With(b2, f2)) if b2 == a => {
                let mut r = b2;
                for (n, y) in f2 {
                    let x = self.field(b2, &n);
                    let v = self.ite(c, x, y);
                    r = self.with(r, &n, v);
                }
                return r;
            }
            (Node::Struct(_, f1), Node::With(b2, _)) if b2 != a && !f1.is_empty() => {
                let _ = b2;
            }
            (Node::Store(a1, i1, v1), Node::Store(a2, i2, v2)) if i1 == i2 && a1 == a2 => {
                let v = self.ite(c, v1, v2);
                return self.store(a1, i1, v);
            }
            (Node::Store(a1, i1, v1), _) if a1 == b => {
                let old = self.index(b, i1);
                let v = self.ite(c, v1, old);
                return self.store(b, i1, v);
            }
            (_, Node::Store(a2, i2, v2)) if a2 == a => {
                let old = self.index(a, i2);
                let v = self.ite(c, old, v2);
                return self.store(a, i2, v);
            }
            (x, y) => {
                // guarded appends to a common base
                let sx = match x {
                    Node::Seq(b, it) => Some((b, it)),
                    _ => None,
                };
                let sy = match y {
                    Node::Seq(b, it) => Some((b, it)),
                    _ => None,
                };
                let empty = self.empty_seq_base();
                let (bx, ix) = match &sx {
                    Some((b, it)) => (*b, it.clone()),
                    None => (a, vec![]),
                };
                let (by, iy) = match &sy {
                    Some((b, it)) => (*b, it.clone()),
                    None => (b, vec![]),
                };
                if (sx.is_some() || sy.is_some()) && bx == by {
                    let _ = empty;
                    return self.merge_seq(c, bx, ix, iy);
                }
            }
        }
        // condition atoms
        let atom_c = self.top_atom(c).unwrap_or(c);
        let mut v = atom_c;
        for x in [a, b] {
            if let Some(y) = self.top_atom(x) {
                v = v.min(y);
            }
        }
        // booleans themselves act as atoms when used as values next to constants
        if self.is_bool(a) || self.is_bool(b) {
            for y in [a, b] {
                if !matches!(self.n(y), Node::Ite(..) | Node::Bool(_)) {
                    v = v.min(y);
                }
            }
        }
        let c1 = self.cofb(c, v, true);
        let c0 = self.cofb(c, v, false);
        let a1 = self.cofb(a, v, true);
        let a0 = self.cofb(a, v, false);
        let b1 = self.cofb(b, v, true);
        let b0 = self.cofb(b, v, false);
        let hi = self.ite(c1, a1, b1);
        let lo = self.ite(c0, a0, b0);
        self.mk_ite(v, hi, lo)
    }
    /// a condition that agrees with `t` wherever `c` holds
    pub fn constrain(&mut self, t: T, c: T, depth: u32) -> T {
        self.burn(1);
        if c == self.tt || c == self.ff || t == self.tt || t == self.ff || depth == 0 {
            return t;
        }
        if let Some(r) = self.con_memo.get(&(t, c)) {
            return *r;
        }
        let r = self.constrain_inner(t, c, depth);
        self.con_memo.insert((t, c), r);
        r
    }
    fn constrain_inner(&mut self, t: T, c: T, depth: u32) -> T {
        let top = |s: &Self, x: T| s.top_atom(x).unwrap_or(x);
        let atom = top(self, t).min(top(self, c));
        let c1 = self.cofb(c, atom, true);
        let c0 = self.cofb(c, atom, false);
        let t1 = self.cofb(t, atom, true);
        let t0 = self.cofb(t, atom, false);
        if c1 == self.ff {
            return self.constrain(t0, c0, depth - 1);
        }
        if c0 == self.ff {
            return self.constrain(t1, c1, depth - 1);
        }
        if t1 == t0 {
            let d = self.or(c1, c0);
            return self.constrain(t, d, depth - 1);
        }
        let x = self.constrain(t1, c1, depth - 1);
        let y = self.constrain(t0, c0, depth - 1);
        self.ite(atom, x, y)
    }
    fn cofb(&mut self, t: T, atom: T, val: bool) -> T {
        if t == atom {
            return self.bool(val);
        }
        // implied atoms
        if let Some(x) = self.implied(atom, val, t) {
            return self.bool(x);
        }
        match self.n(t).clone() {
            Node::Ite(c, a, b) => {
                if c == atom {
                    if val {
                        a
                    } else {
                        b
                    }
                } else if let Some(x) = self.implied(atom, val, c) {
                    let r = if x { a } else { b };
                    self.cofb(r, atom, val)
                } else {
                    // deeper implied occurrences
                    if let Some(r) = self.cof_memo.get(&(t, atom, val)) {
                        return *r;
                    }
                    let r = if self.mentions_related(t, atom, 6) {
                        let a2 = self.cofb(a, atom, val);
                        let b2 = self.cofb(b, atom, val);
                        if a2 == a && b2 == b {
                            t
                        } else {
                            self.ite(c, a2, b2)
                        }
                    } else {
                        t
                    };
                    self.cof_memo.insert((t, atom, val), r);
                    r
                }
            }
            _ => t,
        }
    }
    fn mentions_related(&self, t: T, atom: T, d: u32) -> bool {
        if d == 0 {
            return false;
        }
        match self.n(t) {
            Node::Ite(c, a, b) => {
                self.related(*c, atom)
                    || self.mentions_related(*a, atom, d - 1)
                    || self.mentions_related(*b, atom, d - 1)
            }
            _ => self.related(t, atom),
        }
    }
    fn related(&self, x: T, y: T) -> bool {
        if x == y {
            return true;
        }
        match (self.n(x), self.n(y)) {
            (Node::Is(a, _), Node::Is(b, _)) => a == b,
            (Node::Lt0(a) | Node::Eq0(a), Node::Lt0(b) | Node::Eq0(b)) => {
                a == b || self.differ_by_const(*a, *b).is_some()
            }
            _ => false,
        }
    }
    /// p - q if constant
    fn differ_by_const(&self, a: T, b: T) -> Option<Rat> {
        let pa = self.to_poly(a);
        let pb = self.to_poly(b);
        let mut m: BTreeMap<Mono, Rat> = BTreeMap::new();
        for (k, c) in pa {
            *m.entry(k).or_insert_with(Rat::zero) += c;
        }
        for (k, c) in pb {
            *m.entry(k).or_insert_with(Rat::zero) -= c;
        }
        m.retain(|_, c| !c.is_zero());
        if m.is_empty() {
            Some(rat(0))
        } else if m.len() == 1 && m.keys().next().unwrap().is_empty() {
            Some(m.values().next().unwrap().clone())
        } else {
            None
        }
    }
    /// value of atom t forced by atom=val
    fn implied(&self, atom: T, val: bool, t: T) -> Option<bool> {
        if t == atom {
            return Some(val);
        }
        match (self.n(atom), self.n(t)) {
            (Node::Is(a, v), Node::Is(b, w)) if a == b && v != w && val => {
                if self.var_enum.get(v).is_some() || true {
                    Some(false)
                } else {
                    None
                }
            }
            (x @ (Node::Lt0(p) | Node::Eq0(p)), y @ (Node::Lt0(q) | Node::Eq0(q))) => {
                // d = q - p
                let d = self.differ_by_const(*q, *p)?;
                let xl = matches!(x, Node::Lt0(_));
                let yl = matches!(y, Node::Lt0(_));
                match (xl, val, yl) {
                    // p < 0 -> q = p + d < d
                    (true, true, true) if !d.is_positive() => Some(true),
                    (true, true, false) if !d.is_positive() => Some(false),
                    // p >= 0 -> q >= d
                    (true, false, true) if !d.is_negative() => Some(false),
                    (true, false, false) if d.is_positive() => Some(false),
                    // p = 0 -> q = d
                    (false, true, true) => Some(d.is_negative()),
                    (false, true, false) => Some(d.is_zero()),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn mk_ite(&mut self, atom: T, hi: T, lo: T) -> T {
        if hi == lo {
            return hi;
        }
        if hi == self.tt && lo == self.ff {
            return atom;
        }
        match self.n(atom).clone() {
            Node::Eq0(q) => {
                // redundant equality test: both sides agree when q = 0
                if let Some((x, val)) = self.solve_linear(q) {
                    let h2 = self.subst1(hi, x, val);
                    let l2 = self.subst1(lo, x, val);
                    if h2 == l2 {
                        return lo;
                    }
                }
            }
            Node::Lt0(q) => {
                // min / max / abs recognition: q ~ hi - lo
                if !self.keep_abs && !self.is_bool(hi) && !self.is_bool(lo) {
                    if let (Some(_), Some(_)) = (self.numeric_leaf(hi), self.numeric_leaf(lo)) {
                        let d = self.add0_neg(hi, lo);
                        let (k, m) = self.monic(d);
                        if m == q {
                            // q<0: hi - lo = k q
                            let dneg = k.is_positive();
                            let zero = self.zero;
                            // abs: hi = -lo
                            let s = self.add0(hi, lo);
                            if s == zero {
                                // q<0 -> hi ; hi-lo = 2hi = k q ; hi = (k/2) q: sign(hi) = -sign(k)
                                let a = self.mkabs(lo);
                                return if dneg { self.neg(a) } else { a };
                            }
                            return if dneg {
                                self.minmax("min", vec![hi, lo])
                            } else {
                                self.minmax("max", vec![hi, lo])
                            };
                        }
                    }
                }
            }
            Node::Is(x, v) => {
                // eta: if x is V(..) then V(x.payload) else other == x
                if let Node::Struct(n, fs) = self.n(hi).clone() {
                    if n == v {
                        let all = fs.iter().all(|(f, t)| {
                            let k = format!("{}#{}", v, f);
                            matches!(self.n(*t), Node::Field(b, g) if *b==x && *g==k)
                        });
                        if all {
                            if lo == x {
                                return x;
                            }
                            if let Node::Struct(m, gs) = self.n(lo).clone() {
                                let two = matches!(
                                    (v.as_str(), m.as_str()),
                                    ("Some", "None") | ("Ok", "Err")
                                );
                                let ok = two
                                    && gs.iter().all(|(f, t)| {
                                        let k = format!("{}#{}", m, f);
                                        matches!(self.n(*t), Node::Field(b, g) if *b==x && *g==k)
                                    });
                                if ok {
                                    return x;
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        self.mk(Node::Ite(atom, hi, lo))
    }
    fn numeric_leaf(&self, t: T) -> Option<()> {
        match self.n(t) {
            Node::Ite(..)
            | Node::Struct(..)
            | Node::Array(..)
            | Node::Seq(..)
            | Node::With(..)
            | Node::Store(..)
            | Node::Str(_)
            | Node::Path(_) => None,
            _ => Some(()),
        }
    }
    fn add0_neg(&mut self, a: T, b: T) -> T {
        let m1 = self.int(-1);
        let nb = self.mul0(b, m1);
        self.add0(a, nb)
    }
    /// the atoms common to all terms of a sum, with their smallest exponents
    fn content(v: &[(Mono, Rat)]) -> BTreeMap<T, Rat> {
        let mut common: BTreeMap<T, Rat> = BTreeMap::new();
        for (mo, _) in v {
            for (t, _) in mo {
                let e = v.iter().map(|(q, _)| q.iter().find(|x| x.0 == *t).map_or(Rat::zero(), |x| x.1.clone())).min().unwrap();
                if !e.is_zero() {
                    common.insert(*t, e);
                }
            }
        }
        common
    }
    pub fn mkabs(&mut self, a: T) -> T {
        if let Some(r) = self.as_num(a) {
            return self.num(r.abs());
        }
        if self.ite_parts(a).is_some() {
            return self.lift(&[a], &mut |s, x| s.mkabs(x[0]));
        }
        let (k, m) = self.monic(a);
        let kk = self.num(k.abs());
        // |x y| = |x| |y|
        if let Node::Poly(v) = self.n(m).clone() {
            if v.len() == 1 && v[0].0.iter().all(|(_, e)| e.is_integer()) && (v[0].0.len() > 1 || !v[0].0[0].1.is_one()) {
                let mut r = kk;
                for (a, e) in v[0].0.clone() {
                    let b = self.mkabs(a);
                    let p = self.pow(b, &e);
                    r = self.mul(r, p);
                }
                return r;
            }
        }
        // |x y + x z| = |x| |y + z|
        if let Node::Poly(v) = self.n(m).clone() {
            let mut common: BTreeMap<T, Rat> = BTreeMap::new();
            if v.len() > 1 && v.iter().all(|(mo, _)| mo.iter().all(|(_, e)| e.is_integer())) {
                common = Self::content(&v);
            }
            if !common.is_empty() {
                let mut rest = m;
                let mut out = kk;
                for (t, e) in common {
                    let inv = self.pow(t, &-e.clone());
                    rest = self.mul(rest, inv);
                    let b = self.mkabs(t);
                    let p = self.pow(b, &e);
                    out = self.mul(out, p);
                }
                let r = self.mkabs(rest);
                return self.mul(out, r);
            }
        }
        if matches!(self.n(m), Node::App(f, _) if f == "abs") {
            return self.mul(kk, m);
        }
        let x = self.mk(Node::App("abs".into(), vec![m]));
        self.mul(kk, x)
    }
    pub fn minmax(&mut self, name: &str, args: Vec<T>) -> T {
        let mut set: BTreeSet<T> = BTreeSet::new();
        let mut stack = args;
        while let Some(a) = stack.pop() {
            match self.n(a).clone() {
                Node::App(n, xs) if n == name => stack.extend(xs),
                _ => {
                    set.insert(a);
                }
            }
        }
        let mut nums: Vec<Rat> = vec![];
        let mut rest: Vec<T> = vec![];
        for a in set {
            match self.as_num(a) {
                Some(r) => nums.push(r),
                None => rest.push(a),
            }
        }
        // what is never negative is not affected by a lower bound of zero
        if name == "max" && nums.iter().all(|n| *n <= Rat::from_integer(0.into())) {
            let bounded = rest.iter().any(|r| matches!(self.n(*r), Node::App(f, _) if matches!(f.as_str(), "toint" | "toint_u8" | "toint_u16" | "toint_u32" | "len")));
            if bounded {
                nums.clear();
            }
        }
        if !nums.is_empty() {
            let r = if name == "min" {
                nums.into_iter().min().unwrap()
            } else {
                nums.into_iter().max().unwrap()
            };
            let r = self.num(r);
            rest.push(r);
        }
        rest.sort();
        if rest.len() == 1 {
            return rest[0];
        }
        if rest.iter().any(|r| self.ite_parts(*r).is_some()) {
            let name = name.to_string();
            return self.lift(&rest, &mut |s, x| s.minmax(&name, x.to_vec()));
        }
        if rest.len() == 2 {
            let s = self.add(rest[0], rest[1]);
            if s == self.zero {
                let a = self.mkabs(rest[0]);
                return if name == "max" { a } else { self.sub(s, a) };
            }
        }
        self.mk(Node::App(name.into(), rest))
    }
    /// `t` is computed on integers
    pub fn mark_int(&mut self, t: T) {
        match self.n(t).clone() {
            Node::Poly(ms) => {
                for (m, _) in ms {
                    for (a, _) in m {
                        if !matches!(self.n(a), Node::Poly(_)) {
                            self.ints.insert(a);
                        }
                    }
                }
            }
            Node::Ite(_, a, b) => {
                if self.ints.insert(t) {
                    self.mark_int(a);
                    self.mark_int(b);
                }
            }
            _ => {
                self.ints.insert(t);
            }
        }
    }
    fn keep_int(&mut self, from: T, to: T) {
        if from != to && self.ints.contains(&from) {
            self.mark_int(to);
        }
    }
    pub fn is_int(&self, t: T) -> bool {
        self.ints.contains(&t)
            || matches!(self.n(t), Node::App(f, _) if matches!(f.as_str(), "len" | "idiv" | "ceil_div" | "bitand" | "bitor" | "bitxor" | "toint" | "floor" | "ceil" | "round"))
    }
    /// q = 0 solved for an atom occurring only linearly: (atom, value)
    pub fn solve_linear(&mut self, q: T) -> Option<(T, T)> {
        let p = self.to_poly(q);
        let mut cand: Vec<(T, Rat)> = vec![];
        for (m, c) in &p {
            if m.len() == 1 && m[0].1.is_one() {
                let a = m[0].0;
                let occ = p
                    .iter()
                    .filter(|(m2, _)| m2.iter().any(|(t, _)| *t == a))
                    .count();
                if occ == 1 {
                    cand.push((a, c.clone()));
                }
            }
        }
        // latest atom
        cand.sort_by_key(|x| x.0);
        let (a, c) = cand.pop()?;
        let k = self.num(-Rat::one() / c.clone());
        let ca = self.mk_mono(vec![(a, Rat::one())], c);
        let rest = self.sub(q, ca);
        let v = self.mul(rest, k);
        Some((a, v))
    }
    pub fn lt(&mut self, a: T, b: T) -> T {
        if self.ite_parts(a).is_some() || self.ite_parts(b).is_some() {
            return self.lift(&[a, b], &mut |s, x| s.lt0(x[0], x[1]));
        }
        self.lt0(a, b)
    }
    fn lt0(&mut self, a: T, b: T) -> T {
        let d = self.sub(a, b);
        // powers of two are positive
        if let Node::Poly(ms) = self.n(d) {
            if ms.len() == 1 && ms[0].0.len() == 1 {
                if let Node::App(f, x) = self.n(ms[0].0[0].0) {
                    if f == "pow" && self.as_i64(x[0]) == Some(2) {
                        let neg = ms[0].1.is_negative();
                        return self.bool(neg);
                    }
                }
            }
        } else if self.log2(d).is_some() && self.as_num(d).is_none() {
            return self.ff;
        }
        if let Some(r) = self.as_num(d) {
            return self.bool(r.is_negative());
        }
        if self.ite_parts(d).is_some() {
            let z = self.zero;
            return self.lt(d, z);
        }
        // i < ceil(x / n) <=> i n < x, for counts
        if let Some((neg, x, n, rest)) = self.ceil_part(d) {
            return if neg {
                let r = self.mul(rest, n);
                self.lt(r, x)
            } else {
                let (z, o) = (self.zero, self.one);
                let r = self.sub(z, rest);
                let r = self.sub(r, o);
                let r = self.mul(r, n);
                self.le(x, r)
            };
        }
        // comparisons with an absolute value
        if let Some((c, x, rest)) = self.abs_part(d) {
            let k = self.num(c.clone());
            let kx = self.mul(k, x);
            let hi = self.add(rest, kx);
            let lo = self.sub(rest, kx);
            let z = self.zero;
            let p = self.lt(hi, z);
            let q = self.lt(lo, z);
            return if c.is_positive() { self.and(p, q) } else { self.or(p, q) };
        }
        if let Some((all, parts)) = self.minmax_part(d) {
            let mut r = self.bool(all);
            let z = self.zero;
            for p in parts {
                let x = self.lt(p, z);
                r = if all { self.and(r, x) } else { self.or(r, x) };
            }
            return r;
        }
        let (k, m) = self.monic(d);
        let l = self.mk(Node::Lt0(m));
        let e = self.mk(Node::Eq0(m));
        if self.positive.contains(&m) {
            // m > 0 known
            return self.bool(k.is_negative());
        }
        if k.is_positive() {
            l
        } else {
            // -m < 0  <=>  m > 0
            let ge = self.not(l);
            let ne = self.not(e);
            self.and(ge, ne)
        }
    }
    /// t <=> p < 0
    fn as_lt(&mut self, t: T) -> Option<T> {
        match self.n(t).clone() {
            Node::Lt0(p) => Some(p),
            Node::Ite(c, a, b) if a == self.ff => {
                let (e, x, y) = self.ite_parts(b)?;
                match (self.n(c), self.n(e)) {
                    (Node::Lt0(p), Node::Eq0(q)) if p == q && x == self.ff && y == self.tt => {
                        let (p, z) = (*p, self.zero);
                        Some(self.sub(z, p))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// two-sided bounds (`x < e && x > -e`) as comparison with the absolute value
    pub fn both_sides(&mut self, a: T, b: T, and: bool) -> Option<T> {
        if let (Some(p), Some(q)) = (self.as_lt(a), self.as_lt(b)) {
            let (Node::Poly(mp), Node::Poly(mq)) = (self.n(p).clone(), self.n(q).clone()) else { return None };
            if mp.len() != mq.len() || !mp.iter().zip(&mq).all(|(x, y)| x.0 == y.0 && (x.1 == y.1 || x.1 == -y.1.clone())) || !mp.iter().zip(&mq).any(|(x, y)| x.1 == y.1) {
                return None;
            }
            let h = self.num(Rat::new(1.into(), 2.into()));
            let (s, d) = (self.add(p, q), self.sub(p, q));
            let (s, d) = (self.mul(h, s), self.mul(h, d));
            let d = self.mkabs(d);
            let z = self.zero;
            let e = if and { self.add(s, d) } else { self.sub(s, d) };
            return Some(self.lt(e, z));
        }
        let (na, nb) = (self.not(a), self.not(b));
        if self.as_lt(na).is_some() && self.as_lt(nb).is_some() {
            let r = self.both_sides(na, nb, !and)?;
            return Some(self.not(r));
        }
        None
    }
    /// d = rest - ceil(x / n) (true), d = rest + ceil(x / n) (false)
    fn ceil_part(&mut self, d: T) -> Option<(bool, T, T, T)> {
        let (t, c) = match self.n(d) {
            Node::App(f, _) if f == "ceil_div" => (d, rat(1)),
            Node::Poly(ms) => ms.iter().find_map(|(m, c)| match m.as_slice() {
                [(t, e)] if e.is_one() && matches!(self.n(*t), Node::App(f, _) if f == "ceil_div") => Some((*t, c.clone())),
                _ => None,
            })?,
            _ => return None,
        };
        let Node::App(_, a) = self.n(t).clone() else { return None };
        let neg = c == rat(-1);
        if !neg && c != rat(1) {
            return None;
        }
        let rest = if neg { self.add(d, t) } else { self.sub(d, t) };
        Some((neg, a[0], a[1], rest))
    }
    /// d = c*|x| + rest
    fn abs_part(&mut self, d: T) -> Option<(Rat, T, T)> {
        if self.keep_abs {
            return None;
        }
        let hit = match self.n(d) {
            Node::App(f, a) if f == "abs" => Some((d, a[0], rat(1))),
            Node::Poly(ms) => ms.iter().find_map(|(m, c)| match m.as_slice() {
                [(t, e)] if e.is_one() => match self.n(*t) {
                    Node::App(f, a) if f == "abs" => Some((*t, a[0], c.clone())),
                    _ => None,
                },
                _ => None,
            }),
            _ => None,
        };
        let (t, x, c) = hit?;
        let k = self.num(c.clone());
        let kt = self.mul(k, t);
        let rest = self.sub(d, kt);
        Some((c, x, rest))
    }
    /// d = rest + max(..) (true) or rest + min(..) (false): the sums of rest and one argument
    fn minmax_part(&mut self, d: T) -> Option<(bool, Vec<T>)> {
        if self.keep_abs {
            return None;
        }
        let hit = match self.n(d) {
            Node::App(f, a) if f == "min" || f == "max" => Some((d, f == "max", a.clone(), rat(1))),
            Node::Poly(ms) => ms.iter().find_map(|(m, c)| match m.as_slice() {
                [(t, e)] if e.is_one() => match self.n(*t) {
                    Node::App(f, a) if f == "min" || f == "max" => Some((*t, f == "max", a.clone(), c.clone())),
                    _ => None,
                },
                _ => None,
            }),
            _ => None,
        };
        let (t, max, args, c) = hit?;
        if args.len() > 4 {
            return None;
        }
        let k = self.num(c.clone());
        let kt = self.mul(k, t);
        let rest = self.sub(d, kt);
        let mut parts = vec![];
        for a in args {
            let ka = self.mul(k, a);
            parts.push(self.add(rest, ka));
        }
        Some((max == c.is_positive(), parts))
    }
    pub fn le(&mut self, a: T, b: T) -> T {
        let x = self.lt(b, a);
        self.not(x)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt;
        }
        if self.is_bool(a) || self.is_bool(b) {
            let nb = self.not(b);
            return self.ite(a, b, nb);
        }
        if self.ite_parts(a).is_some() || self.ite_parts(b).is_some() {
            return self.lift(&[a, b], &mut |s, x| s.eq(x[0], x[1]));
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        match (&na, &nb) {
            (Node::Str(x), Node::Str(y)) => return self.bool(x == y),
            (Node::Struct(n1, f1), Node::Struct(n2, f2)) => {
                if n1 != n2 {
                    return self.ff;
                }
                let mut r = self.tt;
                for (x, y) in f1.iter().zip(f2) {
                    let e = self.eq(x.1, y.1);
                    r = self.and(r, e);
                }
                return r;
            }
            (Node::Struct(n1, f1), _) => {
                if self.is_variant(n1) {
                    let mut r = self.is(b, n1);
                    for (f, x) in f1 {
                        let y = self.payload(b, n1, f);
                        let e = self.eq(*x, y);
                        r = self.and(r, e);
                    }
                    return r;
                }
            }
            (_, Node::Struct(..)) => return self.eq(b, a),
            _ => {}
        }
        let d = self.sub(a, b);
        if let Node::App(f, x) = self.n(d) {
            if f == "pow" && self.as_i64(x[0]) == Some(2) {
                return self.ff;
            }
        }
        if let Some(r) = self.as_num(d) {
            return self.bool(r.is_zero());
        }
        if self.ite_parts(d).is_some() {
            let z = self.zero;
            return self.lift(&[d], &mut |s, x| s.eq(x[0], z));
        }
        if let Some((c, x, rest)) = self.abs_part(d) {
            let k = self.num(c.clone());
            let kx = self.mul(k, x);
            let hi = self.add(rest, kx);
            let lo = self.sub(rest, kx);
            let z = self.zero;
            let p = self.eq(hi, z);
            let q = self.eq(lo, z);
            let any = self.or(p, q);
            let wrong = if c.is_positive() { self.lt(z, rest) } else { self.lt(rest, z) };
            let right = self.not(wrong);
            return self.and(right, any);
        }
        if let Some((all, parts)) = self.minmax_part(d) {
            let (mut side, mut any) = (self.tt, self.ff);
            let z = self.zero;
            for p in parts {
                let x = if all { self.le(p, z) } else { self.le(z, p) };
                side = self.and(side, x);
                let e = self.eq(p, z);
                any = self.or(any, e);
            }
            return self.and(side, any);
        }
        let d = self.clear_denominators(d);
        if let Some(r) = self.as_num(d) {
            return self.bool(r.is_zero());
        }
        let (_, m) = self.monic(d);
        self.mk(Node::Lt0(m));
        self.mk(Node::Eq0(m))
    }
    /// multiply by the sums that occur with negative exponents: the zeros stay the same
    fn clear_denominators(&mut self, d: T) -> T {
        let mut d = d;
        for _ in 0..4 {
            let p = self.to_poly(d);
            let mut worst: Option<(T, Rat)> = None;
            for (m, _) in &p {
                for (t, e) in m {
                    if e.is_negative() && (e.is_integer() || p.iter().all(|(m, _)| m.iter().any(|(u, k)| u == t && (k - e).is_integer()))) && matches!(self.n(*t), Node::Poly(_)) {
                        match &worst {
                            Some((w, k)) if w != t || k <= e => {}
                            _ => worst = Some((*t, e.clone())),
                        }
                    }
                }
            }
            let Some((w, k)) = worst else { return d };
            if p.len() > 400 {
                return d;
            }
            let mut out = self.zero;
            for (m, c) in &p {
                let mut rest: Mono = vec![];
                let mut e = -k.clone();
                for (t, x) in m {
                    if *t == w {
                        e += x.clone();
                    } else {
                        rest.push((*t, x.clone()));
                    }
                }
                if !e.is_integer() {
                    return d;
                }
                let mut r = self.num(c.clone());
                if !rest.is_empty() {
                    let x = self.mk_mono(rest, Rat::one());
                    r = self.mul(r, x);
                }
                let n = e.to_integer().to_i64().unwrap_or(99);
                if n > 6 {
                    return d;
                }
                for _ in 0..n {
                    r = self.mul(r, w);
                }
                out = self.add(out, r);
            }
            d = out;
        }
        d
    }
    pub fn is_variant(&self, n: &str) -> bool {
        matches!(n, "Some" | "None" | "Ok" | "Err") || self.var_enum.contains_key(n)
    }
    pub fn is(&mut self, t: T, v: &str) -> T {
        if self.ite_parts(t).is_some() {
            let v = v.to_string();
            return self.lift(&[t], &mut |s, x| s.is(x[0], &v));
        }
        if v == "None" {
            let x = self.is(t, "Some");
            return self.not(x);
        }
        if v == "Err" {
            let x = self.is(t, "Ok");
            return self.not(x);
        }
        if let Node::Struct(n, _) = self.n(t) {
            let b = n == v;
            return self.bool(b);
        }
        if let Some(e) = self.var_enum.get(v).cloned() {
            let sib = self.enums[&e].clone();
            if sib.len() == 1 {
                return self.tt;
            }
            if sib.last().map(|x| x == v).unwrap_or(false) {
                let mut r = self.tt;
                for s in &sib[..sib.len() - 1] {
                    let x = self.mk(Node::Is(t, s.clone()));
                    let nx = self.not(x);
                    r = self.and(r, nx);
                }
                return r;
            }
        }
        self.mk(Node::Is(t, v.to_string()))
    }
    pub fn payload(&mut self, t: T, v: &str, f: &str) -> T {
        self.field(t, &format!("{}#{}", v, f))
    }
    // ---------- records ----------
    pub fn mk_struct(&mut self, n: &str, mut fs: Vec<(String, T)>) -> T {
        fs.sort_by(|a, b| a.0.cmp(&b.0));
        // eta: S{a: x.a, b: x.b} == x is not applied (needs the full field list)
        self.mk(Node::Struct(n.to_string(), fs))
    }
    pub fn tuple(&mut self, v: Vec<T>) -> T {
        let fs = v
            .into_iter()
            .enumerate()
            .map(|(i, t)| (i.to_string(), t))
            .collect();
        self.mk_struct("()", fs)
    }
    pub fn some(&mut self, t: T) -> T {
        self.mk_struct("Some", vec![("0".into(), t)])
    }
    pub fn none(&mut self) -> T {
        self.mk_struct("None", vec![])
    }
    pub fn field(&mut self, t: T, f: &str) -> T {
        match self.n(t).clone() {
            Node::Struct(n, fs) => {
                if let Some(i) = f.find('#') {
                    if f[..i] == n {
                        if let Some(x) = fs.iter().find(|x| x.0 == f[i + 1..]) {
                            return x.1;
                        }
                    }
                    return self.mk(Node::App("undef".into(), vec![]));
                }
                if let Some(x) = fs.iter().find(|x| x.0 == f) {
                    return x.1;
                }
                // the wrapper of a quantity is transparent
                if f == "0" && n == "vec" {
                    return t;
                }
                self.mk(Node::Field(t, f.into()))
            }
            Node::With(b, fs) => {
                if let Some(x) = fs.iter().find(|x| x.0 == f) {
                    return x.1;
                }
                self.field(b, f)
            }
            Node::Ite(c, a, b) => {
                let key = (t, f.to_string());
                if let Some(r) = self.field_memo.get(&key) {
                    return *r;
                }
                let x = self.field(a, f);
                let y = self.field(b, f);
                let und = self.mk(Node::App("undef".into(), vec![]));
                let r = if x == und {
                    y
                } else if y == und {
                    x
                } else {
                    self.ite(c, x, y)
                };
                self.field_memo.insert(key, r);
                r
            }
            // components of a linear combination of vectors
            Node::Poly(v) if matches!(f, "x" | "y" | "z") && v.iter().all(|(m, _)| m.len() == 1 && m[0].1 == rat(1)) && (v.len() > 1 || v.iter().any(|x| x.1 != rat(1))) => {
                let mut acc = self.zero;
                for (m, c) in v {
                    let x = self.field(m[0].0, f);
                    let k = self.num(c.clone());
                    let y = self.mul(k, x);
                    acc = self.add(acc, y);
                }
                acc
            }
            Node::Poly(v) if matches!(f, "x" | "y" | "z") && v.is_empty() => self.zero,
            _ => self.mk(Node::Field(t, f.into())),
        }
    }
    pub fn with(&mut self, t: T, f: &str, v: T) -> T {
        match self.n(t).clone() {
            Node::Struct(n, mut fs) => {
                let key = match f.find('#') {
                    Some(i) => f[i + 1..].to_string(),
                    None => f.to_string(),
                };
                if let Some(x) = fs.iter_mut().find(|x| x.0 == key) {
                    x.1 = v;
                    return self.mk_struct(&n, fs);
                }
                fs.push((key, v));
                self.mk_struct(&n, fs)
            }
            Node::With(b, mut fs) => {
                let orig = self.field(b, f);
                fs.retain(|x| x.0 != f);
                if orig != v {
                    fs.push((f.into(), v));
                }
                if fs.is_empty() {
                    return b;
                }
                fs.sort_by(|a, b| a.0.cmp(&b.0));
                self.mk(Node::With(b, fs))
            }
            Node::Ite(c, a, b) => {
                let x = self.with(a, f, v);
                let y = self.with(b, f, v);
                self.ite(c, x, y)
            }
            _ => {
                let orig = self.field(t, f);
                if orig == v {
                    return t;
                }
                if let Some(i) = f.find('#') {
                    // single-payload variants: writing the payload determines the value
                    if matches!(&f[..i], "Some" | "Ok" | "Err") {
                        return self.mk_struct(&f[..i].to_string(), vec![("0".into(), v)]);
                    }
                }
                self.mk(Node::With(t, vec![(f.into(), v)]))
            }
        }
    }
    // ---------- arrays ----------
    pub fn index(&mut self, a: T, i: T) -> T {
        if self.ite_parts(a).is_some() || self.ite_parts(i).is_some() {
            return self.lift(&[a, i], &mut |s, x| s.index0(x[0], x[1]));
        }
        self.index0(a, i)
    }
    fn index0(&mut self, a: T, i: T) -> T {
        match self.n(a).clone() {
            Node::Array(v) => {
                if let Some(k) = self.as_i64(i) {
                    if k >= 0 && (k as usize) < v.len() {
                        return v[k as usize];
                    }
                }
                self.mk(Node::Index(a, i))
            }
            Node::Repeat(v, _) => v,
            Node::App(f, x) if f == "init" && x.len() == 1 => self.index(x[0], i),
            Node::Store(b, j, v) => {
                let e = self.eq(i, j);
                if e == self.tt {
                    return v;
                }
                let r = self.index(b, i);
                self.ite(e, v, r)
            }
            Node::Seq(b, items) if b == self.empty_seq_base() => {
                if items.len() == 1 {
                    if let Item::Gen(counts, g, val) = &items[0] {
                        if counts.len() == 1 && *g == self.tt {
                            return self.open1(*val, i);
                        }
                    }
                    if let Item::Splice(g, x) = &items[0] {
                        if *g == self.tt {
                            return self.index(*x, i);
                        }
                    }
                }
                if let Some(k) = self.as_i64(i) {
                    if k >= 0 && (k as usize) < items.len() {
                        let ok = items[..=k as usize]
                            .iter()
                            .all(|x| matches!(x, Item::One(g, _) if *g == self.tt));
                        if ok {
                            if let Item::One(_, v) = items[k as usize] {
                                return v;
                            }
                        }
                    }
                }
                if items.len() > 1 && items.len() <= 4 {
                    // pieces of known length, one after the other
                    let mut pos = self.zero;
                    let mut parts = vec![];
                    for it in &items {
                        let off = self.sub(i, pos);
                        let (n, v) = match it {
                            Item::One(g, v) if *g == self.tt => (self.one, *v),
                            Item::Gen(cs, g, v) if cs.len() == 1 && *g == self.tt => (cs[0], self.open1(*v, off)),
                            _ => return self.mk(Node::Index(a, i)),
                        };
                        pos = self.add(pos, n);
                        parts.push((pos, v));
                    }
                    let mut r = parts.pop().unwrap().1;
                    while let Some((end, v)) = parts.pop() {
                        let c = self.lt(i, end);
                        r = self.ite(c, v, r);
                    }
                    return r;
                }
                self.mk(Node::Index(a, i))
            }
            Node::Seq(b, items) => {
                // appended elements follow those of the base
                let mut pos = self.len(b);
                let inb = self.lt(i, pos);
                let mut rest = self.mk(Node::Index(a, i));
                if inb != self.tt {
                    let mut parts = vec![];
                    let mut plain = true;
                    for it in &items {
                        match it {
                            Item::One(g, v) if *g == self.tt => {
                                parts.push((pos, *v));
                                pos = self.add(pos, self.one);
                            }
                            _ => plain = false,
                        }
                    }
                    if plain && parts.len() <= 4 {
                        rest = parts.last().unwrap().1;
                        for (p, v) in parts.iter().rev().skip(1) {
                            let e = self.eq(i, *p);
                            rest = self.ite(e, *v, rest);
                        }
                    } else if let [Item::Gen(cs, g, v)] = items.as_slice() {
                        if cs.len() == 1 && *g == self.tt {
                            let l = self.len(b);
                            let off = self.sub(i, l);
                            rest = self.open1(*v, off);
                        }
                    }
                }
                if inb == self.ff {
                    return rest;
                }
                let x = self.index(b, i);
                self.ite(inb, x, rest)
            }
            _ => self.mk(Node::Index(a, i)),
        }
    }
    pub fn store(&mut self, a: T, i: T, v: T) -> T {
        match self.n(a).clone() {
            Node::Array(mut xs) => {
                if let Some(k) = self.as_i64(i) {
                    if k >= 0 && (k as usize) < xs.len() {
                        xs[k as usize] = v;
                        return self.mk(Node::Array(xs));
                    }
                }
            }
            // the last of n elements
            Node::Seq(b, items) if b == self.empty_seq_base() => {
                if let [Item::Gen(c, g, w)] = &items[..] {
                    let (c, g, w) = (c.clone(), *g, *w);
                    if c.len() == 1 && g == self.tt {
                        let one = self.one;
                        let d = self.sub(c[0], one);
                        if d == i && self.as_num(d).is_none() {
                            return self.seq(b, vec![Item::Gen(vec![d], g, w), Item::One(g, v)]);
                        }
                    }
                }
            }
            Node::Store(b, j, w) => {
                if i == j {
                    return self.store(b, i, v);
                }
                let e = self.eq(i, j);
                if e == self.ff && i < j {
                    let inner = self.store(b, i, v);
                    return self.mk(Node::Store(inner, j, w));
                }
            }
            Node::Ite(c, x, y) => {
                let p = self.store(x, i, v);
                let q = self.store(y, i, v);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        let old = self.index(a, i);
        if old == v {
            return a;
        }
        self.mk(Node::Store(a, i, v))
    }
    pub fn array(&mut self, v: Vec<T>) -> T {
        self.mk(Node::Array(v))
    }
    pub fn len(&mut self, a: T) -> T {
        if !self.lens.is_empty() {
            let (mut r, mut d) = (a, 0);
            while let Node::Index(x, _) = self.n(r) {
                r = *x;
                d += 1;
            }
            if let Some(n) = self.lens.get(&(r, d)) {
                return *n;
            }
        }
        match self.n(a).clone() {
            Node::Array(v) => self.int(v.len() as i64),
            Node::Repeat(_, n) => n,
            Node::Store(b, _, _) => self.len(b),
            Node::Ite(c, x, y) => {
                let key = (a, "len".to_string());
                if let Some(r) = self.field_memo.get(&key) {
                    return *r;
                }
                let p = self.len(x);
                let q = self.len(y);
                let r = self.ite(c, p, q);
                self.field_memo.insert(key, r);
                r
            }
            Node::Str(s) => self.int(s.len() as i64),
            Node::Seq(b, items) => {
                let mut r = if b == self.empty_seq_base() {
                    self.zero
                } else {
                    self.len(b)
                };
                for it in items {
                    let x = match it {
                        Item::One(g, _) => {
                            let (o, z) = (self.one, self.zero);
                            self.ite(g, o, z)
                        }
                        Item::Gen(cs, g, _) => {
                            let (o, z) = (self.one, self.zero);
                            let mut body = self.ite(g, o, z);
                            for c in cs.iter().rev() {
                                body = self.sum(*c, body);
                            }
                            body
                        }
                        Item::Splice(g, x) => {
                            let l = self.len(x);
                            let z = self.zero;
                            self.ite(g, l, z)
                        }
                        Item::Loop(..) => {
                            return self.mk(Node::App("len".into(), vec![a]));
                        }
                    };
                    r = self.add(r, x);
                }
                r
            }
            // all but the last item
            Node::App(f, x) if f == "init" && x.len() == 1 => {
                let l = self.len(x[0]);
                let o = self.one;
                self.sub(l, o)
            }
            _ => self.mk(Node::App("len".into(), vec![a])),
        }
    }
    // ---------- sequences ----------
    pub fn empty_seq_base(&mut self) -> T {
        self.mk(Node::Path("[]".into()))
    }
    pub fn empty_seq(&mut self) -> T {
        let b = self.empty_seq_base();
        self.seq(b, vec![])
    }
    pub fn seq(&mut self, base: T, items: Vec<Item>) -> T {
        let mut base = base;
        let mut out: Vec<Item> = vec![];
        if let Node::Seq(b, pre) = self.n(base).clone() {
            base = b;
            out = pre;
        }
        let empty = self.empty_seq_base();
        for it in items {
            self.push_item(&mut out, it, empty);
        }
        if out.is_empty() && base != empty {
            return base;
        }
        // all unconditional single elements: an array
        if base == empty
            && out
                .iter()
                .all(|x| matches!(x, Item::One(g, _) if *g == self.tt))
        {
            let v = out
                .iter()
                .map(|x| if let Item::One(_, v) = x { *v } else { unreachable!() })
                .collect();
            return self.mk(Node::Array(v));
        }
        if base == empty && out.len() == 1 {
            match &out[0] {
                Item::Splice(g, x) if *g == self.tt => return *x,
                Item::Gen(cs, g, v) if cs.len() == 1 && *g == self.tt => {
                    // identity map
                    if let Node::Index(a, i) = *self.n(*v) {
                        if *self.n(i) == Node::BV(0) && self.max_bv(a) == 0 {
                            let l = self.len(a);
                            if l == cs[0] {
                                return a;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        self.mk(Node::Seq(base, out))
    }
    fn push_item(&mut self, out: &mut Vec<Item>, it: Item, empty: T) {
        match it {
            Item::One(g, _) if g == self.ff => {}
            Item::Splice(g, _) if g == self.ff => {}
            Item::Gen(_, g, _) if g == self.ff => {}
            Item::Gen(ref cs, _, _) if cs.iter().any(|c| *c == self.zero) => {}
            Item::Loop(_, ref v) if v.is_empty() => {}
            Item::Splice(g, x) => match self.n(x).clone() {
                Node::Array(v) => {
                    for y in v {
                        out.push(Item::One(g, y));
                    }
                }
                Node::Seq(b, items) => {
                    if b != empty {
                        self.push_item(out, Item::Splice(g, b), empty);
                    }
                    for i in items {
                        let gi = self.guard_item(g, i);
                        self.push_item(out, gi, empty);
                    }
                }
                Node::Ite(c, a, b) => {
                    let g1 = self.and(g, c);
                    let nc = self.not(c);
                    let g2 = self.and(g, nc);
                    self.push_item(out, Item::Splice(g1, a), empty);
                    self.push_item(out, Item::Splice(g2, b), empty);
                }
                _ => {
                    let l = self.len(x);
                    let bv0 = self.mk(Node::BV(0));
                    let x1 = self.shift(x, 1);
                    let v = self.index(x1, bv0);
                    let g1 = self.shift(g, 1);
                    if self.max_bv(x) == 0 || true {
                        out.push(Item::Gen(vec![l], g1, v));
                    }
                }
            },
            Item::Gen(cs, g, v) => {
                let lits = self.in_range(&cs);
                let g = crate::lin::simplify(self, g, &lits);
                let v = crate::lin::simplify(self, v, &lits);
                if g != self.ff {
                    out.push(Item::Gen(cs, g, v));
                }
            }
            Item::Loop(c, items) => {
                // loop whose body is plain pushes
                let mut items2 = vec![];
                for i in items {
                    self.push_item(&mut items2, i, empty);
                }
                if items2.len() == 1 {
                    match items2[0].clone() {
                        Item::One(g, v) => {
                            self.push_item(out, Item::Gen(vec![c], g, v), empty);
                            return;
                        }
                        Item::Gen(mut cs, g, v) => {
                            cs.insert(0, c);
                            self.push_item(out, Item::Gen(cs, g, v), empty);
                            return;
                        }
                        _ => {}
                    }
                }
                if items2.is_empty() {
                    return;
                }
                // distribute if constant
                out.push(Item::Loop(c, items2));
            }
            x => out.push(x),
        }
    }
    /// the index variables of nested counted loops lie within their ranges
    pub fn in_range(&mut self, cs: &[T]) -> Vec<(T, bool)> {
        let k = cs.len();
        let mut lits = vec![];
        for (j, c) in cs.iter().enumerate() {
            let v = self.mk(Node::BV((k - 1 - j) as u32));
            let n = self.shift(*c, (k - j) as u32);
            let z = self.zero;
            let neg = self.lt(v, z);
            lits.push((neg, false));
            let n1 = self.sub(n, self.one);
            let over = self.lt(n1, v);
            if matches!(self.n(over), Node::Lt0(_)) {
                lits.push((over, false));
            } else {
                let d = self.sub(n1, v);
                if self.ite_parts(d).is_none() && self.as_num(d).is_none() {
                    let raw = self.mk(Node::Lt0(d));
                    lits.push((raw, false));
                }
            }
        }
        lits.retain(|(t, _)| matches!(self.n(*t), Node::Lt0(_)));
        // before the first index with a property the property does not hold
        for (j, c) in cs.iter().enumerate() {
            if let Node::App(f, a) = self.n(*c).clone() {
                if f == "first" {
                    if let Node::Lam(1, p) = *self.n(a[1]) {
                        let v = self.mk(Node::BV((k - 1 - j) as u32));
                        let body = self.shift_under(p, (k - j) as u32);
                        let q = self.open1(body, v);
                        lits.push((q, false));
                    }
                }
            }
        }
        lits
    }
    pub fn guard_item(&mut self, g: T, it: Item) -> Item {
        if g == self.tt {
            return it;
        }
        match it {
            Item::One(h, v) => Item::One(self.and(g, h), v),
            Item::Splice(h, v) => Item::Splice(self.and(g, h), v),
            Item::Gen(cs, h, v) => {
                let gs = self.shift(g, cs.len() as u32);
                Item::Gen(cs, self.and(gs, h), v)
            }
            Item::Loop(c, v) => {
                let gs = self.shift(g, 1);
                let v2 = v.into_iter().map(|i| self.guard_item(gs, i)).collect();
                Item::Loop(c, v2)
            }
        }
    }
    fn merge_seq(&mut self, c: T, base: T, a: Vec<Item>, b: Vec<Item>) -> T {
        let mut out = vec![];
        let mut k = 0;
        while k < a.len() && k < b.len() && a[k] == b[k] {
            out.push(a[k].clone());
            k += 1;
        }
        let nc = self.not(c);
        // aligned single elements
        let mut ai = a[k..].to_vec();
        let mut bi = b[k..].to_vec();
        while let (Some(Item::One(g, x)), Some(Item::One(h, y))) = (ai.first().cloned(), bi.first().cloned()) {
            if g == self.tt && h == self.tt && (self.same_head(x, y)) {
                let v = self.ite(c, x, y);
                out.push(Item::One(self.tt, v));
                ai.remove(0);
                bi.remove(0);
            } else {
                break;
            }
        }
        for it in ai {
            let g = self.guard_item(c, it);
            out.push(g);
        }
        for it in bi {
            let g = self.guard_item(nc, it);
            out.push(g);
        }
        self.seq(base, out)
    }
    fn same_head(&self, x: T, y: T) -> bool {
        match (self.n(x), self.n(y)) {
            (Node::App(a, _), Node::App(b, _)) => {
                if a.starts_with("eff:") || b.starts_with("eff:") {
                    a == b
                } else {
                    true
                }
            }
            _ => true,
        }
    }
    pub fn push(&mut self, s: T, v: T) -> T {
        let t = self.tt;
        let s2 = match self.n(s).clone() {
            Node::Array(xs) => {
                let mut xs = xs;
                xs.push(v);
                return self.mk(Node::Array(xs));
            }
            _ => s,
        };
        self.seq_on(s2, vec![Item::One(t, v)])
    }
    /// append items to an arbitrary base sequence
    pub fn seq_on(&mut self, s: T, items: Vec<Item>) -> T {
        match self.n(s).clone() {
            Node::Array(xs) => {
                let b = self.empty_seq_base();
                let t = self.tt;
                let mut v: Vec<Item> = xs.into_iter().map(|x| Item::One(t, x)).collect();
                v.extend(items);
                self.seq(b, v)
            }
            Node::Ite(c, x, y) => {
                let p = self.seq_on(x, items.clone());
                let q = self.seq_on(y, items);
                self.ite(c, p, q)
            }
            _ => self.seq(s, items),
        }
    }
    // ---------- binders ----------
    /// substitute the free symbol s by BV(0) (body gets one more binder)
    pub fn abstract1(&mut self, body: T, s: T) -> T {
        let mut memo = HashMap::new();
        self.abs_rec(body, &[s], 0, &mut memo)
    }
    /// syms[0] -> BV(0) ... syms[n-1] -> BV(n-1)
    pub fn abstract_n(&mut self, body: T, syms: &[T]) -> T {
        let mut memo = HashMap::new();
        self.abs_rec(body, syms, 0, &mut memo)
    }
    fn abs_rec(&mut self, t: T, syms: &[T], d: u32, memo: &mut HashMap<(T, u32), T>) -> T {
        if let Some(k) = syms.iter().position(|s| *s == t) {
            return self.mk(Node::BV(k as u32 + d));
        }
        if let Some(&r) = memo.get(&(t, d)) {
            return r;
        }
        let n = self.n(t).clone();
        let r = match n {
            Node::BV(k) => {
                if k >= d {
                    self.mk(Node::BV(k + syms.len() as u32))
                } else {
                    t
                }
            }
            _ => self.map_children(t, d, &mut |s, x, dd| s.abs_rec(x, syms, dd, memo)),
        };
        self.keep_int(t, r);
        memo.insert((t, d), r);
        r
    }
    /// replace BV(0) by v, lowering the others
    pub fn open1(&mut self, body: T, v: T) -> T {
        self.open_n(body, &[v])
    }
    pub fn open_n(&mut self, body: T, vs: &[T]) -> T {
        let mut memo = HashMap::new();
        self.open_rec(body, vs, 0, &mut memo)
    }
    fn open_rec(&mut self, t: T, vs: &[T], d: u32, memo: &mut HashMap<(T, u32), T>) -> T {
        if let Some(&r) = memo.get(&(t, d)) {
            return r;
        }
        if self.max_bv(t) <= d {
            return t;
        }
        let n = self.n(t).clone();
        let r = match n {
            Node::BV(k) => {
                if k < d {
                    t
                } else if ((k - d) as usize) < vs.len() {
                    let v = vs[(k - d) as usize];
                    self.shift(v, d)
                } else {
                    self.mk(Node::BV(k - vs.len() as u32))
                }
            }
            _ => self.map_children(t, d, &mut |s, x, dd| s.open_rec(x, vs, dd, memo)),
        };
        self.keep_int(t, r);
        memo.insert((t, d), r);
        r
    }
    pub fn shift(&mut self, t: T, by: u32) -> T {
        if by == 0 || self.max_bv(t) == 0 {
            return t;
        }
        let mut memo = HashMap::new();
        self.shift_rec(t, by, 0, &mut memo)
    }
    /// shift the free variables of a body below one binder
    pub fn shift_under(&mut self, body: T, by: u32) -> T {
        let l = self.mk(Node::Lam(1, body));
        let l = self.shift(l, by);
        match *self.n(l) {
            Node::Lam(1, b) => b,
            _ => body,
        }
    }
    fn shift_rec(&mut self, t: T, by: u32, d: u32, memo: &mut HashMap<(T, u32), T>) -> T {
        if self.max_bv(t) <= d {
            return t;
        }
        if let Some(&r) = memo.get(&(t, d)) {
            return r;
        }
        let r = match self.n(t).clone() {
            Node::BV(k) => {
                if k >= d {
                    self.mk(Node::BV(k + by))
                } else {
                    t
                }
            }
            _ => self.map_children(t, d, &mut |s, x, dd| s.shift_rec(x, by, dd, memo)),
        };
        self.keep_int(t, r);
        memo.insert((t, d), r);
        r
    }
    /// substitute a closed subterm everywhere
    pub fn subst1(&mut self, t: T, from: T, to: T) -> T {
        let mut memo = HashMap::new();
        self.subst_rec(t, &[(from, to)], 0, &mut memo)
    }
    pub fn subst(&mut self, t: T, m: &[(T, T)]) -> T {
        let mut memo = HashMap::new();
        self.subst_rec(t, m, 0, &mut memo)
    }
    fn subst_rec(&mut self, t: T, m: &[(T, T)], d: u32, memo: &mut HashMap<(T, u32), T>) -> T {
        for (f, to) in m {
            if *f == t && d == 0 {
                return *to;
            }
            if d > 0 && self.max_bv(*f) == 0 && *f == t {
                return self.shift(*to, d);
            }
        }
        if let Some(&r) = memo.get(&(t, d)) {
            return r;
        }
        let r = self.map_children(t, d, &mut |s, x, dd| s.subst_rec(x, m, dd, memo));
        self.keep_int(t, r);
        memo.insert((t, d), r);
        r
    }
    /// largest free de Bruijn index + 1
    pub fn max_bv(&mut self, t: T) -> u32 {
        self.fv(t).1
    }
    pub fn has_opaque(&mut self, t: T) -> bool {
        self.fv(t).0
    }
    fn fv(&mut self, t: T) -> (bool, u32) {
        if let Some(&r) = self.fv_memo.get(&t) {
            return r;
        }
        let n = self.n(t).clone();
        let r = match n {
            Node::BV(k) => (false, k + 1),
            Node::Opaque(_) => (true, 0),
            _ => {
                let mut o = false;
                let mut m = 0;
                for (c, b) in self.children(&n) {
                    let (co, cm) = self.fv(c);
                    o |= co;
                    m = m.max(cm.saturating_sub(b));
                }
                (o, m)
            }
        };
        self.fv_memo.insert(t, r);
        r
    }
    /// (child, number of binders around it)
    pub fn children(&self, n: &Node) -> Vec<(T, u32)> {
        fn items(v: &[Item], d: u32, out: &mut Vec<(T, u32)>) {
            for i in v {
                match i {
                    Item::One(g, x) | Item::Splice(g, x) => {
                        out.push((*g, d));
                        out.push((*x, d));
                    }
                    Item::Gen(cs, g, x) => {
                        for (k, c) in cs.iter().enumerate() {
                            out.push((*c, d + k as u32));
                        }
                        out.push((*g, d + cs.len() as u32));
                        out.push((*x, d + cs.len() as u32));
                    }
                    Item::Loop(c, v) => {
                        out.push((*c, d));
                        items(v, d + 1, out);
                    }
                }
            }
        }
        let mut out = vec![];
        match n {
            Node::Poly(v) => {
                for (m, _) in v {
                    for (t, _) in m {
                        out.push((*t, 0));
                    }
                }
            }
            Node::Field(a, _) | Node::Is(a, _) | Node::Lt0(a) | Node::Eq0(a) => out.push((*a, 0)),
            Node::Index(a, b) | Node::Repeat(a, b) => {
                out.push((*a, 0));
                out.push((*b, 0));
            }
            Node::Struct(_, fs) => out.extend(fs.iter().map(|x| (x.1, 0))),
            Node::With(b, fs) => {
                out.push((*b, 0));
                out.extend(fs.iter().map(|x| (x.1, 0)));
            }
            Node::Array(v) | Node::App(_, v) => out.extend(v.iter().map(|x| (*x, 0))),
            Node::Store(a, b, c) | Node::Ite(a, b, c) => {
                out.push((*a, 0));
                out.push((*b, 0));
                out.push((*c, 0));
            }
            Node::Seq(b, it) => {
                out.push((*b, 0));
                items(it, 0, &mut out);
            }
            Node::Sum(c, b) | Node::Any(c, b) => {
                out.push((*c, 0));
                out.push((*b, 1));
            }
            Node::Lam(k, b) => out.push((*b, *k)),
            Node::Fold(c, i, nx, e, _) => {
                let k = i.len() as u32 + 1;
                out.push((*c, 0));
                out.extend(i.iter().map(|x| (*x, 0)));
                out.extend(nx.iter().map(|x| (*x, k)));
                out.push((*e, k));
            }
            Node::Loop(i, c, nx, _) => {
                let k = i.len() as u32;
                out.extend(i.iter().map(|x| (*x, 0)));
                out.push((*c, k));
                out.extend(nx.iter().map(|x| (*x, k)));
            }
            _ => {}
        }
        out
    }
    fn map_items(
        &mut self,
        v: &[Item],
        d: u32,
        f: &mut dyn FnMut(&mut Terms, T, u32) -> T,
    ) -> Vec<Item> {
        v.iter()
            .map(|i| match i {
                Item::One(g, x) => Item::One(f(self, *g, d), f(self, *x, d)),
                Item::Splice(g, x) => Item::Splice(f(self, *g, d), f(self, *x, d)),
                Item::Gen(cs, g, x) => {
                    let k = cs.len() as u32;
                    let cs2 = cs
                        .iter()
                        .enumerate()
                        .map(|(j, c)| f(self, *c, d + j as u32))
                        .collect();
                    Item::Gen(cs2, f(self, *g, d + k), f(self, *x, d + k))
                }
                Item::Loop(c, v) => {
                    let c2 = f(self, *c, d);
                    let v2 = self.map_items(v, d + 1, f);
                    Item::Loop(c2, v2)
                }
            })
            .collect()
    }
    /// rebuild t with mapped children (f receives the binder depth)
    pub fn map_children(
        &mut self,
        t: T,
        d: u32,
        f: &mut dyn FnMut(&mut Terms, T, u32) -> T,
    ) -> T {
        let n = self.n(t).clone();
        match n {
            Node::Poly(v) => {
                let mut r = self.zero;
                let mut changed = false;
                let mut maps: BTreeMap<T, T> = BTreeMap::new();
                for (m, _) in &v {
                    for (a, _) in m {
                        if !maps.contains_key(a) {
                            let b = f(self, *a, d);
                            if b != *a {
                                changed = true;
                            }
                            maps.insert(*a, b);
                        }
                    }
                }
                if !changed {
                    return t;
                }
                for (m, c) in v {
                    let mut x = self.num(c);
                    for (a, e) in m {
                        let p = self.pow(maps[&a], &e);
                        x = self.mul(x, p);
                    }
                    r = self.add(r, x);
                }
                r
            }
            Node::Field(a, n) => {
                let a2 = f(self, a, d);
                if a2 == a {
                    return t;
                }
                self.field(a2, &n)
            }
            Node::Is(a, n) => {
                let a2 = f(self, a, d);
                if a2 == a {
                    return t;
                }
                self.is(a2, &n)
            }
            Node::Lt0(a) => {
                let a2 = f(self, a, d);
                if a2 == a {
                    return t;
                }
                let z = self.zero;
                self.lt(a2, z)
            }
            Node::Eq0(a) => {
                let a2 = f(self, a, d);
                if a2 == a {
                    return t;
                }
                // an equality of two atoms may have become one of two records
                if let Node::Poly(p) = self.n(a).clone() {
                    if p.len() == 2
                        && p.iter().all(|(m, _)| m.len() == 1 && m[0].1.is_one())
                        && p[0].1 == -p[1].1.clone()
                    {
                        let x = f(self, p[0].0[0].0, d);
                        let y = f(self, p[1].0[0].0, d);
                        return self.eq(x, y);
                    }
                }
                let z = self.zero;
                self.eq(a2, z)
            }
            Node::Index(a, b) => {
                let a2 = f(self, a, d);
                let b2 = f(self, b, d);
                if a2 == a && b2 == b {
                    return t;
                }
                self.index(a2, b2)
            }
            Node::Repeat(a, b) => {
                let a2 = f(self, a, d);
                let b2 = f(self, b, d);
                self.mk(Node::Repeat(a2, b2))
            }
            Node::Struct(n, fs) => {
                let g = fs.iter().map(|x| (x.0.clone(), f(self, x.1, d))).collect();
                self.mk_struct(&n, g)
            }
            Node::With(b, fs) => {
                let mut r = f(self, b, d);
                for (n, x) in fs {
                    let v = f(self, x, d);
                    r = self.with(r, &n, v);
                }
                r
            }
            Node::Array(v) => {
                let w = v.iter().map(|x| f(self, *x, d)).collect();
                self.mk(Node::Array(w))
            }
            Node::App(n, v) => {
                let w: Vec<T> = v.iter().map(|x| f(self, *x, d)).collect();
                if w == v {
                    return t;
                }
                self.app(&n, w)
            }
            Node::Store(a, i, v) => {
                let a2 = f(self, a, d);
                let i2 = f(self, i, d);
                let v2 = f(self, v, d);
                self.store(a2, i2, v2)
            }
            Node::Ite(c, a, b) => {
                let c2 = f(self, c, d);
                let a2 = f(self, a, d);
                let b2 = f(self, b, d);
                if c2 == c && a2 == a && b2 == b {
                    return t;
                }
                self.ite(c2, a2, b2)
            }
            Node::Seq(b, it) => {
                let b2 = f(self, b, d);
                let it2 = self.map_items(&it, d, f);
                self.seq_on(b2, it2)
            }
            Node::Sum(c, b) => {
                let c2 = f(self, c, d);
                let b2 = f(self, b, d + 1);
                self.sum(c2, b2)
            }
            Node::Any(c, b) => {
                let c2 = f(self, c, d);
                let b2 = f(self, b, d + 1);
                self.any(c2, b2)
            }
            Node::Lam(k, b) => {
                let b2 = f(self, b, d + k);
                self.mk(Node::Lam(k, b2))
            }
            Node::Fold(c, i, nx, e, s) => {
                let k = i.len() as u32 + 1;
                let c2 = f(self, c, d);
                let i2 = i.iter().map(|x| f(self, *x, d)).collect();
                let n2 = nx.iter().map(|x| f(self, *x, d + k)).collect();
                let e2 = f(self, e, d + k);
                self.mk(Node::Fold(c2, i2, n2, e2, s))
            }
            Node::Loop(i, c, nx, s) => {
                let k = i.len() as u32;
                let i2 = i.iter().map(|x| f(self, *x, d)).collect();
                let c2 = f(self, c, d + k);
                let n2 = nx.iter().map(|x| f(self, *x, d + k)).collect();
                self.mk(Node::Loop(i2, c2, n2, s))
            }
            _ => t,
        }
    }
    /// the partial derivative of t with respect to the atom v; None when a part depends on v
    /// in a way that has no known rule
    pub fn derive(&mut self, t: T, v: T) -> Option<T> {
        if t == v {
            return Some(self.one);
        }
        if !self.occurs(t, v) {
            return Some(self.zero);
        }
        match self.n(t).clone() {
            Node::Ite(c, a, b) => {
                if self.occurs(c, v) {
                    return None;
                }
                let x = self.derive(a, v)?;
                let y = self.derive(b, v)?;
                Some(self.ite(c, x, y))
            }
            Node::App(f, x) if f == "exp" && x.len() == 1 => {
                let d = self.derive(x[0], v)?;
                Some(self.mul(t, d))
            }
            Node::App(f, x) if f == "ln" && x.len() == 1 => {
                let d = self.derive(x[0], v)?;
                Some(self.div(d, x[0]))
            }
            Node::Poly(p) => {
                let mut out = self.zero;
                for (m, c) in p {
                    for i in 0..m.len() {
                        let d = self.derive(m[i].0, v)?;
                        if d == self.zero {
                            continue;
                        }
                        let e = m[i].1.clone();
                        let mut r = self.num(&c * &e);
                        for (j, (b, k)) in m.iter().enumerate() {
                            let k = if i == j { k - Rat::one() } else { k.clone() };
                            let x = self.pow(*b, &k);
                            r = self.mul(r, x);
                        }
                        r = self.mul(r, d);
                        out = self.add(out, r);
                    }
                }
                Some(out)
            }
            _ => None,
        }
    }
    pub fn occurs(&mut self, t: T, s: T) -> bool {
        let mut seen = BTreeSet::new();
        let mut stack = vec![t];
        while let Some(x) = stack.pop() {
            if x == s {
                return true;
            }
            if !seen.insert(x) {
                continue;
            }
            let n = self.n(x).clone();
            stack.extend(self.children(&n).into_iter().map(|c| c.0));
        }
        false
    }
    pub fn walk(&self, t: T, f: &mut dyn FnMut(T, &Node)) {
        let mut seen = BTreeSet::new();
        let mut stack = vec![t];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.n(x).clone();
            f(x, &n);
            stack.extend(self.children(&n).into_iter().map(|c| c.0));
        }
    }
    // ---------- big operators ----------
    /// Sum_{BV0 < count} body
    pub fn sum(&mut self, count: T, body: T) -> T {
        if body == self.zero || count == self.zero {
            return self.zero;
        }
        if let Some((c, a, b)) = self.ite_parts(count) {
            let x = self.sum(a, body);
            let y = self.sum(b, body);
            return self.ite(c, x, y);
        }
        if let Some(k) = self.as_i64(count) {
            if (0..=16).contains(&k) {
                let mut r = self.zero;
                for i in 0..k {
                    let it = self.int(i);
                    let x = self.open1(body, it);
                    r = self.add(r, x);
                }
                return r;
            }
        }
        if let Some((c, a, b)) = self.ite_parts(body) {
            if self.max_bv_is_free_of0(c) {
                let c0 = self.open1(c, 0);
                let x = self.sum(count, a);
                let y = self.sum(count, b);
                return self.ite(c0, x, y);
            }
            return self.mk(Node::Sum(count, body));
        }
        // linear decomposition
        let p = self.to_poly(body);
        let mut r = self.zero;
        for (m, c) in p {
            let mut out = self.num(c);
            let mut inn = self.one;
            for (a, e) in m {
                let x = self.pow(a, &e);
                if self.max_bv_is_free_of0(a) {
                    let x0 = self.open1(x, 0);
                    out = self.mul(out, x0);
                } else {
                    inn = self.mul(inn, x);
                }
            }
            let s = if inn == self.one {
                count
            } else {
                self.mk(Node::Sum(count, inn))
            };
            let y = self.mul(out, s);
            r = self.add(r, y);
        }
        r
    }
    /// does t not mention BV(0)?
    pub fn max_bv_is_free_of0(&mut self, t: T) -> bool {
        if self.max_bv(t) == 0 {
            return true;
        }
        let mark = self.mk(Node::Sym("%mark".into()));
        let o = self.open1(t, mark);
        !self.occurs(o, mark)
    }
    pub fn any(&mut self, count: T, body: T) -> T {
        if body == self.ff || count == self.zero {
            return self.ff;
        }
        if let Some(k) = self.as_i64(count) {
            if (0..=16).contains(&k) {
                let mut r = self.ff;
                for i in 0..k {
                    let it = self.int(i);
                    let x = self.open1(body, it);
                    r = self.or(r, x);
                }
                return r;
            }
        }
        if self.max_bv_is_free_of0(body) {
            let b = self.open1(body, 0);
            let z = self.zero;
            let ne = self.lt(z, count);
            return self.and(ne, b);
        }
        self.mk(Node::Any(count, body))
    }
    // ---------- uninterpreted / interpreted functions ----------
    pub fn app(&mut self, n: &str, args: Vec<T>) -> T {
        if n == "m:from_bits" && args.len() == 1 {
            if let Node::App(f, x) = self.n(args[0]) {
                if f == "m:to_bits" && x.len() == 1 {
                    return x[0];
                }
            }
        }
        let args_ite = args.iter().any(|a| self.ite_parts(*a).is_some());
        if args_ite && !n.starts_with("eff:") && !n.starts_with("res:") && (self.keep_abs || !n.starts_with("fn:")) {
            let name = n.to_string();
            return self.lift(&args, &mut |s, x| s.app0(&name, x.to_vec()));
        }
        self.app0(n, args)
    }
    /// e if t = 2^e
    fn log2(&mut self, t: T) -> Option<T> {
        if let Some(k) = self.as_i64(t) {
            if k > 1 && k & (k - 1) == 0 {
                return Some(self.int(k.trailing_zeros() as i64));
            }
            return None;
        }
        if let Node::App(f, x) = self.n(t).clone() {
            if f == "pow" && self.as_i64(x[0]) == Some(2) {
                return Some(x[1]);
            }
        }
        None
    }
    /// bit e of x is set
    fn bit(&mut self, x: T, e: T) -> T {
        let p = self.mk(Node::App("bitof".into(), vec![x, e]));
        self.mk(Node::Is(p, "1".into()))
    }
    fn app0(&mut self, n: &str, mut args: Vec<T>) -> T {
        match n {
            "min" | "max" => return self.minmax(n, args),
            "abs" => return self.mkabs(args[0]),
            "pow" => {
                if let Some(e) = self.as_num(args[1]) {
                    return self.pow(args[0], &e);
                }
                // (1/n)^e = 1 / n^e, n^-e = 1 / n^e
                let minus = -Rat::one();
                if let Some(c) = self.as_num(args[0]) {
                    if c.is_positive() && !c.is_integer() && c.recip().is_integer() {
                        let b = self.num(c.recip());
                        let p = self.app0("pow", vec![b, args[1]]);
                        return self.pow(p, &minus);
                    }
                    let neg = matches!(self.n(args[1]), Node::Poly(v) if v.len() == 1 && v[0].1.is_negative());
                    if neg && c.is_positive() {
                        let m = self.num(minus.clone());
                        let e = self.mul(args[1], m);
                        let p = self.app0("pow", vec![args[0], e]);
                        return self.pow(p, &minus);
                    }
                }
            }
            "idiv" => {
                if args[1] == self.one {
                    return args[0];
                }
                // (x + y - 1) / y
                if self.as_num(args[1]).is_none() {
                    let x = self.sub(args[0], args[1]);
                    let o = self.one;
                    let x = self.add(x, o);
                    let d = args[1];
                    if !self.occurs(x, d) && self.occurs(args[0], d) {
                        return self.app("ceil_div", vec![x, d]);
                    }
                }
                if let (Some(a), Some(b)) = (self.as_num(args[0]), self.as_num(args[1])) {
                    if !b.is_zero() {
                        return self.num((a / b).trunc());
                    }
                }
            }
            "rem" => {
                if let (Some(a), Some(b)) = (self.as_num(args[0]), self.as_num(args[1])) {
                    if !b.is_zero() {
                        let q = (&a / &b).trunc();
                        return self.num(a - q * b);
                    }
                }
                // the last bit of x >> e
                if self.as_i64(args[1]) == Some(2) {
                    if let Node::App(f, xy) = self.n(args[0]).clone() {
                        if f == "idiv" {
                            if let Some(e) = self.log2(xy[1]) {
                                let b = self.bit(xy[0], e);
                                let (o, z) = (self.one, self.zero);
                                return self.ite(b, o, z);
                            }
                        }
                    }
                }
            }
            "bitand" | "bitor" | "bitxor" => {
                if let (Some(a), Some(b)) = (self.as_i64(args[0]), self.as_i64(args[1])) {
                    let r = match n {
                        "bitand" => a & b,
                        "bitor" => a | b,
                        _ => a ^ b,
                    };
                    return self.int(r);
                }
                args.sort();
                if n == "bitand" && args.contains(&self.zero) {
                    return self.zero;
                }
                if n == "bitand" {
                    for (x, y) in [(args[0], args[1]), (args[1], args[0])] {
                        if let Some(e) = self.log2(y) {
                            if self.as_num(x).is_none() {
                                let b = self.bit(x, e);
                                let z = self.zero;
                                return self.ite(b, y, z);
                            }
                        }
                    }
                }
            }
            "len" => return self.len(args[0]),
            "exp" => {
                if args[0] == self.zero {
                    return self.one;
                }
            }
            "sin" | "cos" => {
                if args[0] == self.zero {
                    return if n == "sin" { self.zero } else { self.one };
                }
                if let Node::App(f, x) = self.n(args[0]).clone() {
                    if f == "acos" && n == "cos" {
                        return x[0];
                    }
                    if f == "acos" {
                        let q = self.mul(x[0], x[0]);
                        let one = self.one;
                        let d = self.sub(one, q);
                        return self.pow(d, &Rat::new(1.into(), 2.into()));
                    }
                }
                // even / odd
                let p = self.to_poly(args[0]);
                if p.first().map_or(false, |x| x.1.is_negative()) {
                    let m = self.neg(args[0]);
                    let r = self.mk(Node::App(n.into(), vec![m]));
                    return if n == "cos" { r } else { self.neg(r) };
                }
            }
            "floor" | "ceil" | "round" => {
                if let Some(a) = self.as_num(args[0]) {
                    let r = match n {
                        "floor" => a.floor(),
                        "ceil" => a.ceil(),
                        _ => a.round(),
                    };
                    return self.num(r);
                }
            }
            "range" => {}
            _ => {}
        }
        self.mk(Node::App(n.into(), args))
    }
    // ---------- display ----------
    pub fn show(&self, t: T) -> String {
        let mut s = {let d = std::env::var("VG_DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(8); self.show_d(t, d)};
        if s.len() > 1600 && std::env::var_os("VG_DEPTH").is_none() {
            let mut k = 1600;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str(" ...");
        }
        s
    }
    fn show_items(&self, v: &[Item], d: u32) -> String {
        v.iter()
            .map(|i| match i {
                Item::One(g, x) => {
                    if *g == self.tt {
                        self.show_d(*x, d)
                    } else {
                        format!("[{}]? {}", self.show_d(*g, d), self.show_d(*x, d))
                    }
                }
                Item::Splice(g, x) => {
                    format!("[{}]? ..{}", self.show_d(*g, d), self.show_d(*x, d))
                }
                Item::Gen(cs, g, x) => format!(
                    "for<{}> [{}]? {}",
                    cs.iter().map(|c| self.show_d(*c, d)).collect::<Vec<_>>().join(","),
                    self.show_d(*g, d),
                    self.show_d(*x, d)
                ),
                Item::Loop(c, v) => {
                    format!("for<{}> {{ {} }}", self.show_d(*c, d), self.show_items(v, d))
                }
            })
            .collect::<Vec<_>>()
            .join("; ")
    }
    pub fn show_d(&self, t: T, d: u32) -> String {
        if d == 0 {
            return "…".into();
        }
        let s = |x: &T| self.show_d(*x, d - 1);
        match self.n(t) {
            Node::Poly(v) => {
                if v.is_empty() {
                    return "0".into();
                }
                let mut out = vec![];
                for (m, c) in v {
                    let mut parts = vec![];
                    if !c.is_one() || m.is_empty() {
                        let cs = if c.is_integer() {
                            format!("{}", c)
                        } else {
                            format!("{:e}", c.to_f64().unwrap_or(f64::NAN))
                        };
                        parts.push(cs);
                    }
                    for (a, e) in m {
                        if e.is_one() {
                            parts.push(self.show_d(*a, d - 1));
                        } else {
                            parts.push(format!("{}^{}", self.show_d(*a, d - 1), e));
                        }
                    }
                    out.push(parts.join("*"));
                }
                format!("({})", out.join(" + "))
            }
            Node::Str(x) => format!("{:?}", x),
            Node::Bool(b) => format!("{}", b),
            Node::Sym(x) => x.clone(),
            Node::BV(k) => format!("#{}", k),
            Node::Path(p) => p.clone(),
            Node::Field(a, f) => format!("{}.{}", s(a), f),
            Node::Index(a, i) => format!("{}[{}]", s(a), s(i)),
            Node::Struct(n, fs) => format!(
                "{}{{{}}}",
                n,
                fs.iter().map(|(f, x)| format!("{}: {}", f, s(x))).collect::<Vec<_>>().join(", ")
            ),
            Node::With(b, fs) => format!(
                "{} with {{{}}}",
                s(b),
                fs.iter().map(|(f, x)| format!("{}: {}", f, s(x))).collect::<Vec<_>>().join(", ")
            ),
            Node::Array(v) => {
                format!("[{}]", v.iter().map(|x| s(x)).collect::<Vec<_>>().join(", "))
            }
            Node::Store(a, i, v) => format!("{}{{[{}]:={}}}", s(a), s(i), s(v)),
            Node::Repeat(v, n) => format!("[{}; {}]", s(v), s(n)),
            Node::Ite(c, a, b) => format!("if {} then {} else {}", s(c), s(a), s(b)),
            Node::Is(a, v) => format!("({} is {})", s(a), v),
            Node::Lt0(a) => format!("({} < 0)", s(a)),
            Node::Eq0(a) => format!("({} == 0)", s(a)),
            Node::App(n, v) => {
                format!("{}({})", n, v.iter().map(|x| s(x)).collect::<Vec<_>>().join(", "))
            }
            Node::Seq(b, it) => format!("<{} ++ {}>", s(b), self.show_items(it, d - 1)),
            Node::Sum(c, b) => format!("Sum<{}>({})", s(c), s(b)),
            Node::Any(c, b) => format!("Any<{}>({})", s(c), s(b)),
            Node::Lam(k, b) => format!("|{}| {}", k, s(b)),
            Node::Fold(c, i, nx, e, k) => format!(
                "Fold<{}>(init [{}], next [{}], exit {}).{}",
                s(c),
                i.iter().map(|x| s(x)).collect::<Vec<_>>().join(", "),
                nx.iter().map(|x| s(x)).collect::<Vec<_>>().join(", "),
                s(e),
                k
            ),
            Node::Loop(i, c, nx, k) => format!(
                "Loop(init [{}], while {}, next [{}]).{}",
                i.iter().map(|x| s(x)).collect::<Vec<_>>().join(", "),
                s(c),
                nx.iter().map(|x| s(x)).collect::<Vec<_>>().join(", "),
                k
            ),
            Node::Opaque(x) => format!("?{}?", x),
        }
    }
}
