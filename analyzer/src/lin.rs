//! Consistency of a conjunction of literals: interval and difference reasoning
//! on linear parts; anything nonlinear is an independent quantity.
use crate::term::{Node, Rat, Terms, T};
use num_traits::{Signed, Zero};
use std::collections::BTreeMap;

type Mono = Vec<(T, Rat)>;
type Lin = BTreeMap<Mono, Rat>;

fn lin(tm: &Terms, t: T) -> Lin {
    let mut m = Lin::new();
    match tm.n(t) {
        Node::Poly(ms) => {
            for (mono, c) in ms {
                m.insert(mono.clone(), c.clone());
            }
        }
        _ => {
            m.insert(vec![(t, crate::term::rat(1))], crate::term::rat(1));
        }
    }
    m
}
/// true if no contradiction is found by Fourier-Motzkin elimination (bounded)
pub fn consistent(tm: &Terms, lits: &[(T, bool)]) -> bool {
    propagates(tm, lits) && check(tm, lits, false)
}
/// as `consistent`, with integer quantities taken to be counts or indices
/// (not negative): used to discard alarms only
pub fn possible(tm: &Terms, lits: &[(T, bool)]) -> bool {
    propagates(tm, lits) && check(tm, lits, true)
}
/// truth of a condition given what is known of its parts
fn truth(tm: &Terms, t: T, m: &std::collections::HashMap<T, bool>, depth: u32) -> Option<bool> {
    if let Some(v) = m.get(&t) {
        return Some(*v);
    }
    match tm.n(t) {
        Node::Bool(b) => Some(*b),
        Node::Ite(c, x, y) if depth < 40 => match truth(tm, *c, m, depth + 1) {
            Some(true) => truth(tm, *x, m, depth + 1),
            Some(false) => truth(tm, *y, m, depth + 1),
            None => {
                let (a, b) = (truth(tm, *x, m, depth + 1)?, truth(tm, *y, m, depth + 1)?);
                (a == b).then_some(a)
            }
        },
        Node::Is(x, v) => {
            // another variant is known
            let _ = (x, v);
            None
        }
        _ => None,
    }
}
/// unit propagation over the literals: false if they contradict each other
fn propagates(tm: &Terms, lits: &[(T, bool)]) -> bool {
    let mut m: std::collections::HashMap<T, bool> = Default::default();
    let mut work: Vec<(T, bool)> = lits.to_vec();
    let mut ites: Vec<(T, bool)> = vec![];
    let mut rounds = 0;
    loop {
        while let Some((t, v)) = work.pop() {
            match m.get(&t) {
                Some(o) if *o != v => return false,
                Some(_) => continue,
                None => {}
            }
            if let Some(o) = truth(tm, t, &m, 0) {
                if o != v {
                    return false;
                }
            }
            m.insert(t, v);
            match tm.n(t) {
                Node::Ite(..) => ites.push((t, v)),
                Node::Is(x, n) if v => {
                    // exactly one variant
                    for (o, ov) in m.iter() {
                        if let (Node::Is(y, k), true) = (tm.n(*o), *ov) {
                            if y == x && k != n {
                                return false;
                            }
                        }
                    }
                }
                Node::Is(x, n) => {
                    if let Some(e) = tm.var_enum.get(n) {
                        if let Some(all) = tm.enums.get(e) {
                            let gone = m.iter().filter(|(o, ov)| !**ov && matches!(tm.n(**o), Node::Is(y, k) if y == x && tm.var_enum.get(k) == Some(e))).count();
                            if gone >= all.len() {
                                return false;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        rounds += 1;
        if rounds > 20 {
            return true;
        }
        for (t, v) in &ites {
            if let Node::Ite(c, x, y) = tm.n(*t) {
                match truth(tm, *c, &m, 0) {
                    Some(true) => {
                        if !m.contains_key(x) {
                            work.push((*x, *v));
                        }
                    }
                    Some(false) => {
                        if !m.contains_key(y) {
                            work.push((*y, *v));
                        }
                    }
                    None => {
                        if truth(tm, *x, &m, 0) == Some(!*v) {
                            work.push((*c, false));
                        } else if truth(tm, *y, &m, 0) == Some(!*v) {
                            work.push((*c, true));
                        }
                    }
                }
            }
        }
        if work.is_empty() {
            return true;
        }
    }
}
/// a row over integer quantities with integer coefficients: l < 0 is l + 1 <= 0
fn tighten(tm: &Terms, row: (Lin, bool)) -> (Lin, bool) {
    let (mut l, strict) = row;
    if !strict {
        return (l, strict);
    }
    let mut some = false;
    for (k, c) in &l {
        if !c.is_integer() {
            return (l, strict);
        }
        for (t, e) in k {
            if !e.is_integer() || e.is_negative() {
                return (l, strict);
            }
            if tm.is_int(*t) {
                some = true;
            } else if !matches!(tm.n(*t), Node::BV(_)) {
                return (l, strict);
            }
        }
    }
    if !some {
        return (l, strict);
    }
    *l.entry(vec![]).or_insert_with(Rat::zero) += crate::term::rat(1);
    l.retain(|_, v| !v.is_zero());
    (l, false)
}
fn minus(a: &Lin, b: &Lin) -> Lin {
    let mut m = a.clone();
    for (k, v) in b {
        *m.entry(k.clone()).or_insert_with(Rat::zero) -= v.clone();
    }
    m.retain(|_, v| !v.is_zero());
    m
}
/// a product of absolute values without the bars
fn without_abs(tm: &Terms, k: &Mono) -> Option<Lin> {
    if tm.keep_abs || k.is_empty() {
        return None;
    }
    let mut mono: Mono = vec![];
    let mut sum: Option<T> = None;
    for (t, e) in k {
        let Node::App(f, a) = tm.n(*t) else { return None };
        if f != "abs" || a.len() != 1 || !e.is_integer() {
            return None;
        }
        if let Node::Poly(_) = tm.n(a[0]) {
            if sum.is_some() || *e != crate::term::rat(1) {
                return None;
            }
            sum = Some(a[0]);
        } else {
            mono.push((a[0], e.clone()));
        }
    }
    let mut out = Lin::new();
    let one: Lin = [(vec![], crate::term::rat(1))].into();
    for (m, c) in sum.map(|t| lin(tm, t)).unwrap_or(one) {
        let mut prod: BTreeMap<T, Rat> = m.into_iter().collect();
        for (t, e) in &mono {
            *prod.entry(*t).or_insert_with(Rat::zero) += e.clone();
        }
        out.insert(prod.into_iter().filter(|x| !x.1.is_zero()).collect(), c);
    }
    Some(out)
}
/// a quantity defined by cases in the literals, with rows for each case
#[allow(clippy::type_complexity)]
fn piecewise(tm: &Terms, lits: &[(T, bool)], done: &[Mono]) -> Option<(Mono, Vec<(Vec<(Lin, bool)>, Vec<(Lin, bool)>)>)> {
    for (l, _) in lits {
        let q = match tm.n(*l) {
            Node::Lt0(q) | Node::Eq0(q) => *q,
            _ => continue,
        };
        for k in lin(tm, q).keys() {
            if done.contains(k) {
                continue;
            }
            if let Some(x) = without_abs(tm, k) {
                let me: Lin = [(k.clone(), crate::term::rat(1))].into();
                let nx = neg(&x);
                let same = |v: &Lin| vec![(minus(&me, v), false), (minus(v, &me), false)];
                return Some((k.clone(), vec![(same(&x), vec![(nx.clone(), false)]), (same(&nx), vec![(x.clone(), true)])]));
            }
            let [(t, e)] = k.as_slice() else { continue };
            if *e != crate::term::rat(1) {
                continue;
            }
            if let Node::App(f, a) = tm.n(*t) {
                let me = lin(tm, *t);
                if (f == "min" || f == "max") && a.len() <= 3 {
                    let mut alts = vec![];
                    for (i, x) in a.iter().enumerate() {
                        let v = lin(tm, *x);
                        let eqs = vec![(minus(&me, &v), false), (minus(&v, &me), false)];
                        let mut facts = vec![];
                        for (j, y) in a.iter().enumerate() {
                            if i != j {
                                let w = lin(tm, *y);
                                facts.push((if f == "min" { minus(&v, &w) } else { minus(&w, &v) }, false));
                            }
                        }
                        alts.push((eqs, facts));
                    }
                    return Some((k.clone(), alts));
                }
            }
        }
    }
    None
}
/// the condition as literals: `pos` conjunctions and negated disjunctions are split
fn flatten(tm: &Terms, t: T, pos: bool, out: &mut Vec<(T, bool)>) {
    if let Node::Ite(c, a, b) = tm.n(t) {
        let (c, a, b) = (*c, *a, *b);
        let dead = if pos { tm.ff } else { tm.tt };
        if b == dead {
            flatten(tm, c, true, out);
            flatten(tm, a, pos, out);
            return;
        }
        if a == dead {
            flatten(tm, c, false, out);
            flatten(tm, b, pos, out);
            return;
        }
    }
    out.push((t, pos));
}
fn check(tm: &Terms, lits: &[(T, bool)], counts: bool) -> bool {
    let mut flat = vec![];
    for (t, p) in lits {
        flatten(tm, *t, *p, &mut flat);
    }
    check_flat(tm, flat, counts, 4, vec![], vec![])
}
/// facts that are decision graphs are resolved with the other facts, or by cases
fn check_flat(tm: &Terms, mut flat: Vec<(T, bool)>, counts: bool, cases: u32, extra: Vec<(Lin, bool)>, done: Vec<Mono>) -> bool {
    loop {
        let mut again = false;
        for i in 0..flat.len() {
            if let Node::Ite(c, a, b) = tm.n(flat[i].0) {
                let (c, a, b, pos) = (*c, *a, *b, flat[i].1);
                if let Some(v) = flat.iter().find(|x| x.0 == c).map(|x| x.1) {
                    flat.swap_remove(i);
                    flatten(tm, if v { a } else { b }, pos, &mut flat);
                    again = true;
                    break;
                }
            }
        }
        if !again {
            break;
        }
    }
    if cases > 0 {
        if let Some(i) = flat.iter().position(|x| matches!(tm.n(x.0), Node::Ite(..))) {
            let (t, pos) = flat[i];
            if let Node::Ite(c, a, b) = tm.n(t) {
                for (side, v) in [(*a, true), (*b, false)] {
                    let mut f = flat.clone();
                    f.swap_remove(i);
                    flatten(tm, *c, v, &mut f);
                    flatten(tm, side, pos, &mut f);
                    if check_flat(tm, f, counts, cases - 1, extra.clone(), done.clone()) {
                        return true;
                    }
                }
                return false;
            }
        }
    }
    if cases > 0 {
        // absolute values, minima and maxima by cases
        if let Some((t, alts)) = piecewise(tm, &flat, &done) {
            for (eqs, facts) in alts {
                let mut d = done.clone();
                d.push(t.clone());
                let mut e = extra.clone();
                e.extend(eqs);
                e.extend(facts);
                if check_flat(tm, flat.clone(), counts, cases - 1, e, d) {
                    return true;
                }
            }
            return false;
        }
    }
    let lits = &flat[..];
    // rows: lin < 0 (strict) or <= 0
    let mut rows: Vec<(Lin, bool)> = extra;
    let mut is: BTreeMap<T, Vec<(String, bool)>> = BTreeMap::new();
    let mut nes: Vec<Lin> = vec![];
    for (t, pos) in lits {
        match tm.n(*t).clone() {
            Node::Lt0(q) => {
                let l = lin(tm, q);
                if *pos {
                    rows.push((l, true));
                } else {
                    rows.push((neg(&l), false));
                }
            }
            Node::Eq0(q) => {
                let l = lin(tm, q);
                if *pos {
                    rows.push((neg(&l), false));
                    rows.push((l, false));
                } else {
                    nes.push(l);
                }
            }
            Node::Bool(b) if b != *pos => return false,
            Node::Is(x, v) => is.entry(x).or_default().push((v, *pos)),
            _ => {}
        }
    }
    for v in is.values() {
        let yes: std::collections::BTreeSet<&String> = v.iter().filter(|x| x.1).map(|x| &x.0).collect();
        if yes.len() > 1 || v.iter().any(|x| !x.1 && yes.contains(&x.0)) {
            return false;
        }
    }
    // lengths and absolute values are not negative
    let mut nn: Vec<Lin> = vec![];
    for l in rows.iter().map(|r| &r.0).chain(&nes) {
        for k in l.keys() {
            if !k.is_empty() {
                let single = k.len() == 1;
                let pos = k.iter().all(|(t, _)| match tm.n(*t) {
                    Node::App(f, _) if f == "len" || f == "abs" => true,
                    // a number of iterations done
                    Node::BV(_) if counts && !single => true,
                    _ => counts && tm.is_int(*t),
                });
                if pos {
                    let mut m = Lin::new();
                    m.insert(k.clone(), crate::term::rat(-1));
                    if !nn.contains(&m) {
                        nn.push(m);
                    }
                }
            }
        }
    }
    rows.extend(nn.into_iter().map(|m| (m, false)));
    let rows = rows.into_iter().map(|r| tighten(tm, r)).collect();
    // two-way splits of disequalities
    if nes.len() > 8 {
        nes.truncate(8);
    }
    feasible_ne(tm, rows, &nes)
}
/// value of `t` where all literals hold: comparisons they decide are replaced
pub fn simplify(tm: &mut Terms, t: T, lits: &[(T, bool)]) -> T {
    let mut atoms = vec![];
    collect(tm, t, &mut atoms, 0);
    if atoms.is_empty() || atoms.len() > 24 {
        return t;
    }
    let mut m = vec![];
    for a in atoms {
        let mut l = lits.to_vec();
        l.push((a, true));
        if !consistent(tm, &l) {
            m.push((a, tm.ff));
            continue;
        }
        l.pop();
        l.push((a, false));
        if !consistent(tm, &l) {
            m.push((a, tm.tt));
        }
    }
    if m.is_empty() {
        return t;
    }
    tm.subst(t, &m)
}
fn collect(tm: &Terms, t: T, out: &mut Vec<T>, depth: u32) {
    if depth > 12 || out.len() > 30 {
        return;
    }
    match tm.n(t) {
        Node::Lt0(q) | Node::Eq0(q) => {
            let small = match tm.n(*q) {
                Node::Poly(p) => p.len() <= 8,
                _ => true,
            };
            if small && !out.contains(&t) {
                out.push(t);
            }
        }
        Node::Ite(c, a, b) => {
            for x in [*c, *a, *b] {
                collect(tm, x, out, depth + 1);
            }
        }
        Node::Struct(_, fs) => {
            for f in fs {
                collect(tm, f.1, out, depth + 1);
            }
        }
        _ => {}
    }
}
fn feasible_ne(tm: &Terms, rows: Vec<(Lin, bool)>, nes: &[Lin]) -> bool {
    match nes.split_first() {
        None => feasible(rows),
        Some((l, rest)) => {
            let mut a = rows.clone();
            a.push(tighten(tm, (l.clone(), true)));
            if feasible_ne(tm, a, rest) {
                return true;
            }
            let mut b = rows;
            b.push(tighten(tm, (neg(l), true)));
            feasible_ne(tm, b, rest)
        }
    }
}
fn neg(l: &Lin) -> Lin {
    l.iter().map(|(k, v)| (k.clone(), -v.clone())).collect()
}
thread_local! {
    static FUEL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// work allowed for the next obligation
pub fn refuel() {
    FUEL.with(|f| f.set(4_000_000));
}
pub fn exhausted() -> bool {
    FUEL.with(|f| f.get() == 0)
}
fn feasible(mut rows: Vec<(Lin, bool)>) -> bool {
    loop {
        let work: u64 = rows.iter().map(|r| r.0.len() as u64 + 1).sum();
        let left = FUEL.with(|f| {
            f.set(f.get().saturating_sub(work));
            f.get()
        });
        if left == 0 {
            return true;
        }
        // constant rows
        let mut next = vec![];
        for (l, s) in rows {
            let c = l.get(&vec![]).cloned().unwrap_or_else(Rat::zero);
            if l.keys().all(|k| k.is_empty()) {
                if c.is_positive() || (s && c.is_zero()) {
                    return false;
                }
            } else {
                next.push((l, s));
            }
        }
        rows = next;
        let var = match rows.iter().flat_map(|(l, _)| l.keys()).find(|k| !k.is_empty()) {
            Some(v) => v.clone(),
            None => return true,
        };
        let (mut up, mut lo, mut rest) = (vec![], vec![], vec![]);
        for (l, s) in rows {
            match l.get(&var) {
                Some(c) if c.is_positive() => up.push((l, s)),
                Some(c) if c.is_negative() => lo.push((l, s)),
                _ => rest.push((l, s)),
            }
        }
        for (u, su) in &up {
            for (w, sw) in &lo {
                let cu = u[&var].clone();
                let cw = -w[&var].clone();
                let mut m = Lin::new();
                for (k, v) in u {
                    *m.entry(k.clone()).or_insert_with(Rat::zero) += v * &cw;
                }
                for (k, v) in w {
                    *m.entry(k.clone()).or_insert_with(Rat::zero) += v * &cu;
                }
                m.retain(|_, v| !v.is_zero());
                rest.push((m, *su || *sw));
            }
        }
        if rest.len() > 400 {
            return true;
        }
        rows = rest;
    }
}
