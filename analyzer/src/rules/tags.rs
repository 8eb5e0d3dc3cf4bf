//! Tags are derived from the type that is communicated: wherever a tag is computed from a
//! type inside generic code, the type is one of the generic parameters.
use super::spmd::Graph;
use crate::report::World;
use crate::spec::{Ob, Verdict};
use std::collections::BTreeSet;
use syn::visit::Visit;

#[derive(Default)]
struct Calls {
    /// name, type arguments, line
    calls: Vec<(String, Vec<String>, usize)>,
}
fn idents(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            _ => {}
        }
    }
}
impl<'ast> Visit<'ast> for Calls {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if let Some(s) = p.segments.last() {
            let owner = p.segments.iter().rev().nth(1).map(|x| x.ident.to_string());
            let name = match owner {
                Some(o) if o == "TypeId" => format!("TypeId::{}", s.ident),
                _ => s.ident.to_string(),
            };
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                let mut v = vec![];
                let args = &a.args;
                idents(quote::quote!(#args), &mut v);
                self.calls.push((name, v, s.ident.span().start().line));
            }
        }
        syn::visit::visit_path(self, p);
    }
}
pub fn run(w: &mut World) -> Result<Vec<Ob>, String> {
    let prog = w.prog("3d")?;
    let g = Graph::new(&prog);
    // functions that turn their type parameter into a number
    let mut of_type: BTreeSet<String> = ["TypeId::of".to_string(), "type_name".to_string()].into();
    let mut sites = vec![];
    for i in &g.own {
        let f = g.f(*i);
        if !f.file.starts_with("src/communication") {
            continue;
        }
        let mut c = Calls::default();
        c.visit_block(f.block.as_ref().unwrap());
        sites.push((*i, c.calls));
    }
    loop {
        let n = of_type.len();
        for (i, calls) in &sites {
            let f = g.f(*i);
            if f.sig.inputs.is_empty() && f.self_name.is_none() && !f.sig.generics.params.is_empty() && calls.iter().any(|c| of_type.contains(&c.0)) {
                of_type.insert(f.name.clone());
            }
        }
        if of_type.len() == n {
            break;
        }
    }
    let mut out = vec![];
    for (i, calls) in &sites {
        let f = g.f(*i);
        let mut params: Vec<String> = f.sig.generics.type_params().map(|p| p.ident.to_string()).collect();
        if let Some(ig) = &f.impl_generics {
            params.extend(ig.type_params().map(|p| p.ident.to_string()));
        }
        params.push("Self".into());
        for (name, args, line) in calls {
            if !of_type.contains(name) || params.len() == 1 {
                continue;
            }
            let ok = args.iter().any(|a| params.contains(a) || a == "_");
            out.push(Ob {
                key: format!("tag {} in {}", name, f.qual()),
                rule: "tags are derived from the communicated type".into(),
                target: f.qual(),
                file: f.file.clone(),
                line: *line,
                verdict: if ok { Verdict::Holds } else { Verdict::Violated(format!("{} is derived from {} whatever the communicated type is", name, args.join(" "))) },
                analysed: vec![f.qual()],
                detail: String::new(),
            });
        }
    }
    Ok(out)
}
