//! Datatypes handed to the message layer describe the structure they stand for.
use crate::eval::{Ev, Opts};
use crate::load::*;
use crate::report::{guarded, World};
use crate::spec::{Ob, Verdict};
use crate::term::*;
use std::rc::Rc;

fn prim_size(n: &str) -> Option<i64> {
    Some(match n {
        "u8" | "i8" | "bool" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        "u64" | "i64" | "f64" | "usize" | "isize" => 8,
        "u128" | "i128" => 16,
        _ => return None,
    })
}
/// type without aliases and transparent wrappers; (element, count)
fn element(p: &Program, t: &syn::Type, depth: u32) -> Option<(String, i64)> {
    match t {
        syn::Type::Path(tp) => {
            let seg = tp.path.segments.last()?;
            let n = seg.ident.to_string();
            if n == "MaybeUninit" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                        return element(p, t, depth + 1);
                    }
                }
            }
            Some((alias(p, &n, depth), 1))
        }
        syn::Type::Array(a) => {
            let (e, k) = element(p, &a.elem, depth + 1)?;
            match &a.len {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => Some((e, k * i.base10_parse::<i64>().ok()?)),
                _ => None,
            }
        }
        syn::Type::Paren(x) => element(p, &x.elem, depth),
        syn::Type::Group(x) => element(p, &x.elem, depth),
        _ => None,
    }
}
fn alias(p: &Program, n: &str, depth: u32) -> String {
    if depth < 4 {
        let mut it = p.aliases.iter().filter(|a| a.0 == n);
        if let (Some(a), None) = (it.next(), it.next()) {
            if let syn::Type::Path(tp) = &a.3 {
                if tp.qself.is_none() && a.2.is_empty() {
                    if let Some(s) = tp.path.segments.last() {
                        return alias(p, &s.ident.to_string(), depth + 1);
                    }
                }
            }
        }
    }
    n.to_string()
}
enum E {
    Bad(String),
    Dunno(String),
}
/// the elements a datatype term stands for
fn datatype(p: &Program, ev: &Ev, t: T) -> Result<(String, i64), E> {
    match ev.tm.n(t) {
        Node::App(f, a) if f == "m:contiguous" && a.len() == 2 => {
            let n = ev.tm.as_i64(a[0]).ok_or_else(|| E::Dunno("block count is not a constant".into()))?;
            let (e, k) = datatype(p, ev, a[1])?;
            Ok((e, n * k))
        }
        Node::App(f, a) if f.starts_with("fn:") && f.ends_with("::equivalent_datatype") && a.is_empty() => {
            let n = f[3..f.len() - "::equivalent_datatype".len()].rsplit("::").next().unwrap_or("");
            Ok((alias(p, n, 0), 1))
        }
        _ => Err(E::Dunno(format!("datatype not understood: {}", crate::spec::clip(&ev.tm.show(t))))),
    }
}
fn array(ev: &Ev, t: T) -> Result<Vec<T>, E> {
    match ev.tm.n(t) {
        Node::Array(v) => Ok(v.clone()),
        _ => Err(E::Dunno(format!("not a fixed list: {}", crate::spec::clip(&ev.tm.show(t))))),
    }
}
fn judge(p: &Program, ev: &Ev, s: &StructInfo, ret: T) -> Result<String, E> {
    let fields: Vec<(String, Option<(String, i64)>)> = s
        .fields
        .iter()
        .filter(|f| !type_name(&f.1).starts_with("PhantomData"))
        .map(|f| (f.0.clone(), element(p, &f.1, 0)))
        .collect();
    let same = |d: &(String, i64), f: &Option<(String, i64)>| -> Result<(), E> {
        let Some(f) = f else { return Err(E::Dunno("type of a field not understood".into())) };
        if d == f {
            return Ok(());
        }
        match (prim_size(&d.0), prim_size(&f.0)) {
            (Some(a), Some(b)) if a * d.1 == b * f.1 && b > 8 => Ok(()),
            (Some(_), Some(_)) => Err(E::Bad(format!("{} x {} stands for {} x {}", d.1, d.0, f.1, f.0))),
            _ if d.0 == f.0 => Err(E::Bad(format!("{} elements of {} stand for {}", d.1, d.0, f.1))),
            _ if s.generics.contains(&d.0) || s.generics.contains(&f.0) || prim_size(&d.0).is_some() || prim_size(&f.0).is_some() => {
                Err(E::Bad(format!("{} stands for a field of type {}", d.0, f.0)))
            }
            _ => Err(E::Dunno(format!("{} stands for a field of type {}", d.0, f.0))),
        }
    };
    match ev.tm.n(ret).clone() {
        Node::App(f, a) if f == "m:structured" && a.len() == 3 => {
            let lens = array(ev, a[0])?;
            let offs = array(ev, a[1])?;
            let tys = array(ev, a[2])?;
            if lens.len() != offs.len() || offs.len() != tys.len() {
                return Err(E::Bad(format!("{} block lengths, {} offsets and {} datatypes", lens.len(), offs.len(), tys.len())));
            }
            let mut seen: Vec<String> = vec![];
            let mut dunno = None;
            for k in 0..offs.len() {
                let fname = match ev.tm.n(offs[k]) {
                    Node::App(g, x) if g == "offsetof" => {
                        let ty = match ev.tm.n(x[0]) {
                            Node::Str(t) => t.clone(),
                            _ => String::new(),
                        };
                        if ty != s.name && ty != "Self" {
                            return Err(E::Bad(format!("entry {k} uses an offset inside {ty}")));
                        }
                        match ev.tm.n(x[1]) {
                            Node::Str(t) => t.clone(),
                            _ => return Err(E::Dunno("field of an offset not understood".into())),
                        }
                    }
                    _ if ev.tm.as_i64(offs[k]) == Some(0) && fields.len() == 1 => fields[0].0.clone(),
                    _ if ev.tm.as_i64(offs[k]).is_some() => return Err(E::Bad(format!("entry {k} has the fixed offset {}", ev.tm.show(offs[k])))),
                    Node::App(g, _) if g.ends_with("::size_of") || g.ends_with("::align_of") => {
                        return Err(E::Bad(format!("entry {k} has an offset that is not that of a field: {}", ev.tm.show(offs[k]))))
                    }
                    _ => return Err(E::Dunno(format!("offset not understood: {}", crate::spec::clip(&ev.tm.show(offs[k]))))),
                };
                if seen.contains(&fname) {
                    return Err(E::Bad(format!("field {fname} is described twice")));
                }
                let Some(fd) = fields.iter().find(|x| x.0 == fname) else {
                    return Err(E::Dunno(format!("field {fname} not found")));
                };
                let n = ev.tm.as_i64(lens[k]).ok_or_else(|| E::Dunno("block length is not a constant".into()))?;
                let r = datatype(p, ev, tys[k]).and_then(|(e, c)| same(&(e, c * n), &fd.1));
                match r {
                    Err(E::Bad(m)) => return Err(E::Bad(format!("field {fname}: {m}"))),
                    Err(E::Dunno(m)) => dunno = Some(m),
                    Ok(()) => {}
                }
                seen.push(fname);
            }
            if let Some(f) = fields.iter().find(|f| !seen.contains(&f.0)) {
                return Err(E::Bad(format!("field {} is not part of the datatype", f.0)));
            }
            if let Some(m) = dunno {
                return Err(E::Dunno(m));
            }
            Ok(format!("{} entries", seen.len()))
        }
        _ => {
            let d = datatype(p, ev, ret)?;
            if fields.len() != 1 {
                return Err(E::Bad(format!("{} fields are described by the datatype of {}", fields.len(), d.0)));
            }
            same(&d, &fields[0].1)?;
            Ok("same datatype as its only field".into())
        }
    }
}
pub fn run(w: &mut World) -> Result<Vec<Ob>, String> {
    let mut out = vec![];
    let p: Rc<Program> = w.prog("3d")?;
    for f in p.fns.iter().filter(|f| f.name == "equivalent_datatype" && f.trait_.as_deref() == Some("Equivalence") && !f.in_test && f.block.is_some()) {
        let name = f.self_name.clone().unwrap_or_default();
        let name = name.split('@').next().unwrap().to_string();
        let s = p.structs.iter().filter(|s| s.name == name).min_by_key(|s| (s.module != f.module) as u32);
        let verdict = match s {
            None => Verdict::Unknown("structure not found".into()),
            Some(s) => {
                let r = guarded(|| {
                    let mut ev = Ev::new(p.clone(), Opts { max_depth: 24, ..Default::default() });
                    let r = ev.run(f.id);
                    judge(&p, &ev, s, r.ret)
                });
                match r {
                    Ok(Ok(_)) => Verdict::Holds,
                    Ok(Err(E::Bad(m))) => Verdict::Violated(m),
                    Ok(Err(E::Dunno(m))) => Verdict::Unknown(m),
                    Err(e) => Verdict::Unknown(format!("analysis gave up: {e}")),
                }
            }
        };
        out.push(Ob {
            key: format!("layout {}", f.qual()),
            rule: "datatype lists every field once, at its offset, with its type".into(),
            target: f.qual(),
            file: f.file.clone(),
            line: f.line,
            verdict,
            analysed: vec![f.qual()],
            detail: String::new(),
        });
    }
    Ok(out)
}
