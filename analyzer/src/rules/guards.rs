//! Guards of non-blocking sends live until the answers have been received: a guard waits when
//! it is dropped, and a send is only sure to complete once the peer receives.
use super::spmd::Graph;
use crate::report::World;
use crate::spec::{Ob, Verdict};
use syn::visit::Visit;

const GUARDED: &[&str] = &["immediate_send_vec_wait_guard"];

fn mentions(e: &impl quote::ToTokens, names: &[&str]) -> bool {
    fn go(ts: proc_macro2::TokenStream, names: &[&str]) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Group(g) => go(g.stream(), names),
            proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string().as_str()),
            _ => false,
        })
    }
    go(e.to_token_stream(), names)
}
/// the guard itself, behind conversions that keep it alive
fn is_guard(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::MethodCall(m) if GUARDED.contains(&m.method.to_string().as_str()) => true,
        syn::Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "unwrap" | "expect" | "into_iter" | "flatten" | "ok" | "unwrap_or_else" | "is_some" | "is_none") => is_guard(&m.receiver),
        syn::Expr::Paren(p) => is_guard(&p.expr),
        _ => false,
    }
}
fn path_name(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Reference(r) => path_name(&r.expr),
        _ => None,
    }
}
/// the collection a statement moves one of `vars` (or a fresh guard) into
fn moved_to(s: &syn::Stmt, var: Option<&str>) -> Option<String> {
    struct V<'a> {
        var: Option<&'a str>,
        to: Option<String>,
    }
    impl<'ast> Visit<'ast> for V<'_> {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if matches!(m.method.to_string().as_str(), "push" | "extend" | "insert" | "push_back" | "append") {
                let hit = m.args.iter().any(|a| match self.var {
                    Some(v) => mentions(a, &[v]),
                    None => mentions(a, GUARDED),
                });
                if hit {
                    if let Some(n) = path_name(&m.receiver) {
                        self.to = Some(n);
                    }
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V { var, to: None };
    v.visit_stmt(s);
    v.to
}
struct Block {
    /// body of a loop or of a closure that may run several times
    again: bool,
    vars: Vec<String>,
}
#[derive(Default)]
struct Walk {
    stack: Vec<Block>,
    sites: usize,
    bad: Vec<(usize, String)>,
    again: bool,
}
impl Walk {
    fn declared(&self, n: &str) -> Option<usize> {
        self.stack.iter().rposition(|b| b.vars.iter().any(|v| v == n))
    }
    fn innermost_again(&self) -> Option<usize> {
        self.stack.iter().rposition(|b| b.again)
    }
    fn judge(&mut self, line: usize, to: Option<String>, named: bool) {
        self.sites += 1;
        match to {
            None => {
                if !named {
                    self.bad.push((line, "the guard of a send is dropped at once: the rank waits for its peer before receiving".into()));
                } else if self.innermost_again().is_some_and(|k| k + 1 == self.stack.len()) {
                    self.bad.push((line, "the guard of a send ends with the iteration: the rank waits for its peer before receiving".into()));
                }
            }
            Some(c) => {
                if let (Some(d), Some(k)) = (self.declared(&c), self.innermost_again()) {
                    if d >= k {
                        self.bad.push((line, format!("the guards in {c} end with the iteration: the rank waits for its peer before receiving")));
                    }
                }
            }
        }
    }
}
/// `drop(c)` or `c.clear()` in a list of statements, before the first receiving call
fn let_go(stmts: &[syn::Stmt], c: &str) -> Option<usize> {
    struct V<'a> {
        c: &'a str,
        line: Option<usize>,
    }
    impl<'ast> Visit<'ast> for V<'_> {
        fn visit_expr_call(&mut self, m: &'ast syn::ExprCall) {
            let last = match &*m.func {
                syn::Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                _ => None,
            };
            if last.as_deref() == Some("drop") && m.args.iter().any(|a| path_name(a).as_deref() == Some(self.c)) {
                self.line = Some(0);
            }
            syn::visit::visit_expr_call(self, m);
        }
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if matches!(m.method.to_string().as_str(), "clear" | "pop" | "truncate" | "drain") && path_name(&m.receiver).as_deref() == Some(self.c) {
                self.line = Some(m.method.span().start().line);
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut after = false;
    for s in stmts {
        if mentions(s, GUARDED) {
            after = true;
            let mut v = V { c, line: None };
            v.visit_stmt(s);
            if v.line.is_some() {
                return v.line;
            }
            continue;
        }
        if after {
            let mut v = V { c, line: None };
            v.visit_stmt(s);
            if v.line.is_some() && !mentions(s, &["receive_vec"]) {
                return v.line;
            }
            if mentions(s, &["receive_vec"]) {
                return None;
            }
        }
    }
    None
}
impl<'ast> Visit<'ast> for Walk {
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        self.visit_expr(&f.expr);
        self.again = true;
        self.visit_block(&f.body);
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        self.visit_expr(&f.cond);
        self.again = true;
        self.visit_block(&f.body);
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        self.again = true;
        self.visit_block(&f.body);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.visit_expr(&m.receiver);
        for a in &m.args {
            if let syn::Expr::Closure(c) = a {
                if m.method == "for_each" {
                    self.again = true;
                }
                self.visit_expr(&c.body);
                self.again = false;
            } else {
                self.visit_expr(a);
            }
        }
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let again = std::mem::take(&mut self.again);
        self.stack.push(Block { again, vars: vec![] });
        for (k, s) in b.stmts.iter().enumerate() {
            let rest = &b.stmts[k + 1..];
            match s {
                syn::Stmt::Local(l) => {
                    let name = match &l.pat {
                        syn::Pat::Ident(i) => Some(i.ident.to_string()),
                        syn::Pat::Type(t) => match &*t.pat {
                            syn::Pat::Ident(i) => Some(i.ident.to_string()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let (Some(init), true) = (&l.init, matches!(&l.pat, syn::Pat::Ident(_) | syn::Pat::Type(_) | syn::Pat::Wild(_))) {
                        if is_guard(&init.expr) {
                            let line = l.let_token.span.start().line;
                            match &name {
                                None => self.judge(line, None, false),
                                Some(n) => {
                                    let used = rest.iter().any(|s| mentions(s, &[n.as_str()]));
                                    let to = rest.iter().find_map(|s| moved_to(s, Some(n)));
                                    if to.is_some() || !used {
                                        self.judge(line, to, true);
                                    } else {
                                        // moved by a loop, a pattern or a call: not followed
                                        self.sites += 1;
                                        let mut moved = None;
                                        for s in rest {
                                            moved = moved.or(pattern_moved(s, n));
                                        }
                                        if let Some(c) = moved {
                                            self.sites -= 1;
                                            self.judge(line, Some(c), true);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if let Some(n) = name {
                        self.stack.last_mut().unwrap().vars.push(n.clone());
                        if let Some(line) = let_go(rest, &n) {
                            if collects(rest, &n) {
                                self.bad.push((line, format!("the guards in {n} are released before receiving")));
                            }
                        }
                    }
                }
                syn::Stmt::Expr(e, semi) => {
                    if is_guard(e) && semi.is_some() {
                        let line = first_line(e);
                        self.judge(line, None, false);
                    } else if let Some(c) = moved_to_here(s) {
                        self.judge(first_line(e), Some(c), true);
                    }
                }
                _ => {}
            }
            self.visit_stmt(s);
        }
        self.stack.pop();
    }
}
fn collects(stmts: &[syn::Stmt], c: &str) -> bool {
    stmts.iter().any(|s| mentions(s, GUARDED) && mentions(s, &[c]))
}
fn pattern_moved(s: &syn::Stmt, n: &str) -> Option<String> {
    // if let Some(g) = guard { guards.push(g) }
    if !mentions(s, &[n]) {
        return None;
    }
    struct V(Option<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if matches!(m.method.to_string().as_str(), "push" | "extend") {
                self.0 = path_name(&m.receiver);
            }
        }
    }
    let mut v = V(None);
    v.visit_stmt(s);
    v.0
}
/// `guards.push(call)` as a statement of its own
fn moved_to_here(s: &syn::Stmt) -> Option<String> {
    if let syn::Stmt::Expr(syn::Expr::MethodCall(m), _) = s {
        if matches!(m.method.to_string().as_str(), "push" | "extend") && m.args.iter().any(is_guard) {
            return path_name(&m.receiver);
        }
    }
    None
}
fn first_line(e: &syn::Expr) -> usize {
    use syn::spanned::Spanned;
    e.span().start().line
}
pub fn run(w: &mut World) -> Result<Vec<Ob>, String> {
    let prog = w.prog("3d")?;
    let g = Graph::new(&prog);
    let mut out = vec![];
    for i in &g.own {
        let f = g.f(*i);
        let b = f.block.as_ref().unwrap();
        if !mentions(b, GUARDED) {
            continue;
        }
        let mut v = Walk::default();
        v.visit_block(b);
        v.bad.sort();
        v.bad.dedup();
        let bad = v.bad.first().cloned();
        out.push(Ob {
            key: format!("guards {}", f.qual()),
            rule: "guards of non-blocking sends live until the answers are received".into(),
            target: f.qual(),
            file: f.file.clone(),
            line: bad.as_ref().map(|x| x.0).filter(|l| *l > 0).unwrap_or(f.line),
            verdict: match bad {
                Some((_, m)) => Verdict::Violated(m),
                None => Verdict::Holds,
            },
            analysed: vec![f.qual()],
            detail: format!("{} guards followed", v.sites),
        });
    }
    Ok(out)
}
