//! The table of units and constants: every entry has the value and dimension its name stands for.
use crate::report::World;
use crate::spec::{Ob, Verdict};
use crate::term::Rat;
use num_traits::{One, Zero};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::{BTreeMap, HashMap};

type Dim = BTreeMap<String, i64>;
#[derive(Clone, PartialEq, Debug)]
struct Q(Rat, Dim);
fn combine(a: &Q, b: &Q, sign: i64) -> Option<Q> {
    let mut d = a.1.clone();
    for (k, v) in &b.1 {
        *d.entry(k.clone()).or_insert(0) += sign * v;
    }
    d.retain(|_, v| *v != 0);
    let f = if sign > 0 { &a.0 * &b.0 } else if b.0.is_zero() { return None } else { &a.0 / &b.0 };
    Some(Q(f, d))
}
pub fn decimal(s: &str) -> Option<Rat> {
    let s = s.replace('_', "");
    let s = s.trim_end_matches("f64").trim_end_matches("f32");
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], s[i + 1..].parse::<i32>().ok()?),
        None => (s, 0),
    };
    let (neg, m) = match m.strip_prefix('-') {
        Some(m) => (true, m),
        None => (false, m),
    };
    let (int, frac) = m.split_once('.').unwrap_or((m, ""));
    let digits: num_bigint::BigInt = format!("{int}{frac}").parse().ok()?;
    let exp = e - frac.len() as i32;
    let ten = Rat::from_integer(10.into());
    let r = Rat::from_integer(digits) * num_traits::pow::Pow::pow(&ten, exp);
    Some(if neg { -r } else { r })
}
fn eval(e: &syn::Expr, env: &mut dyn FnMut(&str) -> Option<Q>) -> Option<Q> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => Some(Q(decimal(i.base10_digits())?, Dim::new())),
            syn::Lit::Float(f) => Some(Q(decimal(f.base10_digits())?, Dim::new())),
            _ => None,
        },
        syn::Expr::Path(p) => env(&p.path.segments.last()?.ident.to_string()),
        syn::Expr::Paren(p) => eval(&p.expr, env),
        syn::Expr::Group(p) => eval(&p.expr, env),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => {
            let q = eval(&u.expr, env)?;
            Some(Q(-q.0, q.1))
        }
        syn::Expr::Binary(b) => {
            let x = eval(&b.left, env)?;
            let y = eval(&b.right, env)?;
            match b.op {
                syn::BinOp::Mul(_) => combine(&x, &y, 1),
                syn::BinOp::Div(_) => combine(&x, &y, -1),
                _ => None,
            }
        }
        _ => None,
    }
}
enum Rhs {
    Base(Dim),
    Expr(syn::Expr),
}
fn find_macro(items: &[syn::Item], out: &mut Vec<TokenStream>) {
    for i in items {
        match i {
            syn::Item::Macro(m) if m.mac.path.segments.last().map_or(false, |s| s.ident == "unit_system") => out.push(m.mac.tokens.clone()),
            syn::Item::Mod(m) => {
                if let Some((_, v)) = &m.content {
                    find_macro(v, out)
                }
            }
            _ => {}
        }
    }
}
/// the entries of the bracketed list: name, line, right-hand side
fn entries(ts: TokenStream) -> Vec<(String, usize, Option<Rhs>)> {
    let mut out = vec![];
    let list = ts.into_iter().find_map(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => Some(g.stream()),
        _ => None,
    });
    let Some(list) = list else { return out };
    let mut cur: Vec<TokenTree> = vec![];
    let mut groups = vec![];
    for t in list {
        if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
            groups.push(std::mem::take(&mut cur));
        } else {
            cur.push(t);
        }
    }
    groups.push(cur);
    for g in groups {
        let Some(eq) = g.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '=')) else { continue };
        let name = match g.get(1) {
            Some(TokenTree::Ident(i)) => (i.to_string(), i.span().start().line),
            Some(TokenTree::Group(x)) => match x.stream().into_iter().next() {
                Some(TokenTree::Ident(i)) => (i.to_string(), i.span().start().line),
                _ => continue,
            },
            _ => continue,
        };
        let rhs: Vec<TokenTree> = g[eq + 1..].to_vec();
        let r = match rhs.as_slice() {
            [TokenTree::Group(b)] if b.delimiter() == Delimiter::Brace => {
                let mut d = Dim::new();
                let mut ok = true;
                let v: Vec<String> = b.stream().into_iter().map(|t| t.to_string()).collect();
                for part in v.split(|t| t == ",") {
                    if part.is_empty() {
                        continue;
                    }
                    match (part.first(), part.get(1).map(|s| s.as_str()), part[2.min(part.len())..].concat().parse::<i64>()) {
                        (Some(n), Some(":"), Ok(k)) => {
                            if k != 0 {
                                d.insert(n.clone(), k);
                            }
                        }
                        _ => ok = false,
                    }
                }
                ok.then_some(Rhs::Base(d))
            }
            _ => syn::parse2::<syn::Expr>(rhs.into_iter().collect()).ok().map(Rhs::Expr),
        };
        out.push((name.0, name.1, r));
    }
    out
}
fn show(q: &Q) -> String {
    format!("{} {:?}", q.0, q.1)
}
pub fn run(w: &mut World) -> Result<Vec<Ob>, String> {
    let mut table: Vec<(String, usize, Option<Rhs>)> = vec![];
    let mut file = String::new();
    let prog = w.prog("3d")?;
    let mut files: Vec<String> = prog.fns.iter().map(|f| f.file.clone()).collect();
    files.push("src/units/mod.rs".into());
    files.sort();
    files.dedup();
    for f in files {
        let Ok(text) = std::fs::read_to_string(format!("{}/{}", w.repo, f)) else { continue };
        if !text.contains("unit_system") {
            continue;
        }
        let Ok(ast) = syn::parse_file(&text) else { continue };
        let mut v = vec![];
        find_macro(&ast.items, &mut v);
        for ts in v {
            table.extend(entries(ts));
            file = f.clone();
        }
    }
    let reference = std::fs::read_to_string(format!("{}/spec/C31.units", w.verif)).map_err(|e| e.to_string())?;
    let map: HashMap<String, &Rhs> = table.iter().filter_map(|(n, _, r)| r.as_ref().map(|r| (n.clone(), r))).collect();
    fn lookup(n: &str, map: &HashMap<String, &Rhs>, depth: u32) -> Option<Q> {
        if depth > 30 {
            return None;
        }
        match map.get(n)? {
            Rhs::Base(d) => Some(Q(Rat::one(), d.clone())),
            Rhs::Expr(e) => eval(e, &mut |m| lookup(m, map, depth + 1)),
        }
    }
    let mut obs = vec![];
    for line in reference.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let mut it = line.split_whitespace();
        let (Some(name), Some(value)) = (it.next(), it.next()) else { continue };
        let mut want = Q(decimal(value).ok_or(format!("bad reference {line}"))?, Dim::new());
        for d in it {
            let (k, v) = d.split_once('=').ok_or(format!("bad reference {line}"))?;
            want.1.insert(k.into(), v.parse().map_err(|_| format!("bad reference {line}"))?);
        }
        let l = table.iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or(0);
        let verdict = if l == 0 {
            Verdict::Unknown("anchor not found: no such entry".into())
        } else {
            match lookup(name, &map, 0) {
                None => Verdict::Unknown("the definition is not a product of known entries".into()),
                Some(q) if q == want => Verdict::Holds,
                Some(q) => Verdict::Violated(format!("is {} where the name stands for {}", show(&q), show(&want))),
            }
        };
        obs.push(Ob {
            key: format!("unit table: {name}"),
            rule: "entry of the unit table has the value and dimension of its name".into(),
            target: name.into(),
            file: file.clone(),
            line: l,
            verdict,
            analysed: vec![format!("{file}: {name}")],
            detail: String::new(),
        });
    }
    Ok(obs)
}
