//! Who may delete files.
use super::spmd::{show, Graph};
use crate::report::World;
use crate::spec::{Ob, Verdict};
use std::collections::BTreeSet;
use syn::visit::Visit;

const DELETING: &[&str] = &["remove_dir_all", "remove_dir", "remove_file"];
const ALLOWED: &[&str] = &["make_output_dirs"];
#[derive(Default)]
struct Calls {
    calls: Vec<(String, usize)>,
}
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(s) = p.path.segments.last() {
                self.calls.push((s.ident.to_string(), s.ident.span().start().line));
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.calls.push((m.method.to_string(), m.method.span().start().line));
        syn::visit::visit_expr_method_call(self, m);
    }
    // functions handed over as values
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(s) = p.path.segments.last() {
            self.calls.push((s.ident.to_string(), s.ident.span().start().line));
        }
    }
}
pub fn run(w: &mut World) -> Result<Vec<Ob>, String> {
    let prog = w.prog("3d")?;
    let g = Graph::new(&prog);
    let calls: Vec<(usize, Vec<(String, usize)>)> = g
        .own
        .iter()
        .map(|i| {
            let mut c = Calls::default();
            c.visit_block(g.f(*i).block.as_ref().unwrap());
            (*i, c.calls)
        })
        .collect();
    // functions called only on behalf of the one allowed to delete
    let callers = |n: &str| -> Vec<usize> { calls.iter().filter(|(_, v)| v.iter().any(|c| c.0 == n)).map(|x| x.0).collect() };
    let mut ok: BTreeSet<usize> = g.own.iter().copied().filter(|i| ALLOWED.contains(&g.f(*i).name.as_str())).collect();
    loop {
        let mut more = vec![];
        for i in &g.own {
            let f = g.f(*i);
            if ok.contains(i) || g.own.iter().filter(|j| g.f(**j).name == f.name).count() > 1 {
                continue;
            }
            let c: Vec<usize> = callers(&f.name).into_iter().filter(|j| j != i).collect();
            if !c.is_empty() && c.iter().all(|j| ok.contains(j)) {
                more.push(*i);
            }
        }
        if more.is_empty() {
            break;
        }
        ok.extend(more);
    }
    let mut obs = vec![];
    let mut sites = 0;
    for (i, v) in &calls {
        let f = g.f(*i);
        let d: Vec<&(String, usize)> = v.iter().filter(|c| DELETING.contains(&c.0.as_str())).collect();
        if d.is_empty() {
            continue;
        }
        sites += 1;
        let verdict = if ok.contains(i) || f.file.starts_with("src/voronoi/visualizer") {
            Verdict::Holds
        } else {
            Verdict::Violated(format!("{} calls {}, but only the handling of an existing output directory may delete", f.qual(), d[0].0))
        };
        obs.push(Ob {
            key: format!("deletion in {}", f.qual()),
            rule: "files are deleted only on behalf of make_output_dirs".into(),
            target: f.qual(),
            file: f.file.clone(),
            line: d[0].1,
            verdict,
            analysed: vec![format!("{}: {} deleting calls", f.qual(), d.len())],
            detail: String::new(),
        });
    }
    obs.push(Ob {
        key: "functions searched for deleting calls".into(),
        rule: "files are deleted only on behalf of make_output_dirs".into(),
        target: "crate".into(),
        file: "src".into(),
        line: 0,
        verdict: if calls.len() > 100 { Verdict::Holds } else { Verdict::Unknown("too few functions found".into()) },
        analysed: vec![format!("{} functions, {sites} with deleting calls", calls.len())],
        detail: String::new(),
    });
    // nothing is deleted unless asked for
    for (file, e) in prog.files.iter().flat_map(|(n, f)| f.items.iter().map(move |i| (n, i))).filter_map(|(n, i)| match i {
        syn::Item::Enum(e) if e.ident == "HandleExistingOutput" => Some((n, e)),
        _ => None,
    }) {
        let default = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")));
        let verdict = match default {
            None => Verdict::Unknown("no default variant".into()),
            Some(v) if v.ident == "Delete" => Verdict::Violated("an existing output directory is deleted by default".into()),
            Some(v) if v.ident == "Panic" => Verdict::Holds,
            Some(v) => Verdict::Unknown(format!("default is {}", show(&v.ident))),
        };
        obs.push(Ob {
            key: "default policy".into(),
            rule: "deleting existing output is not the default".into(),
            target: "HandleExistingOutput".into(),
            file: file.clone(),
            line: 0,
            verdict,
            analysed: vec!["HandleExistingOutput".into()],
            detail: String::new(),
        });
    }
    Ok(obs)
}
