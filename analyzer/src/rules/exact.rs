//! Point location falls back to exact arithmetic: from `contains` of a simplex, some function that
//! lifts its points to exact ones is reachable. Reachability follows every identifier that names a
//! function of the mesh code, which includes all calls.
use super::spmd::Graph;
use crate::report::World;
use crate::spec::{Ob, Verdict};
use std::collections::BTreeSet;

fn idents(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
}
pub fn run(w: &mut World) -> Result<Vec<Ob>, String> {
    let prog = w.prog("3d")?;
    let g = Graph::new(&prog);
    let mut fns = vec![];
    for i in &g.own {
        let f = g.f(*i);
        if f.file.starts_with("src/voronoi") && !f.file.contains("test") {
            let mut ids = BTreeSet::new();
            let b = f.block.as_ref().unwrap();
            idents(quote::quote!(#b), &mut ids);
            fns.push((*i, ids));
        }
    }
    let lifts = |ids: &BTreeSet<String>| ids.iter().any(|x| x.starts_with("PrecisionPoint") || x.starts_with("PrecisionFloat"));
    let primitive = |k: usize| g.f(fns[k].0).file.starts_with("src/voronoi/primitives");
    if !(0..fns.len()).any(|k| primitive(k) && lifts(&fns[k].1)) {
        return Ok(vec![]);
    }
    let mut out = vec![];
    for k in 0..fns.len() {
        let f = g.f(fns[k].0);
        let own = f.self_name.clone().unwrap_or_default();
        if f.name != "contains" || !primitive(k) || !(own == "TriangleData" || own == "TetrahedronData") {
            continue;
        }
        let mut seen: BTreeSet<usize> = [k].into();
        let mut todo = vec![k];
        let mut found = None;
        while let Some(x) = todo.pop() {
            if lifts(&fns[x].1) {
                found = Some(x);
                break;
            }
            for (y, _) in fns.iter().enumerate() {
                if fns[x].1.contains(&g.f(fns[y].0).name) && seen.insert(y) {
                    todo.push(y);
                }
            }
        }
        out.push(Ob {
            key: format!("exact fallback of {}", f.qual()),
            rule: "point location reaches exact arithmetic".into(),
            target: f.qual(),
            file: f.file.clone(),
            line: f.sig.ident.span().start().line,
            verdict: if found.is_some() { Verdict::Holds } else { Verdict::Violated(format!("no call path from {} leads to exact arithmetic: what the floating-point test cannot decide is answered without evaluating it", f.qual())) },
            analysed: seen.iter().map(|x| g.f(fns[*x].0).qual()).collect(),
            detail: String::new(),
        });
    }
    Ok(out)
}
