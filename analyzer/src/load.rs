//! Source loading: parses every .rs file, applies cfg for the chosen features,
//! expands the repository's own macro_rules and indexes all items.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

#[derive(Clone)]
pub struct FnInfo {
    pub id: usize,
    pub file: String,
    pub module: Vec<String>,
    pub self_ty: Option<syn::Type>,
    pub self_name: Option<String>,
    pub trait_: Option<String>,
    pub is_trait_def: bool,
    pub impl_generics: Option<syn::Generics>,
    pub name: String,
    pub sig: syn::Signature,
    pub block: Option<syn::Block>,
    pub attrs: Vec<syn::Attribute>,
    pub vis_pub: bool,
    pub line: usize,
    pub in_test: bool,
}
impl FnInfo {
    pub fn qual(&self) -> String {
        let mut s = self.module.join("::");
        if let Some(t) = &self.self_name {
            if !s.is_empty() {
                s.push_str("::");
            }
            s.push_str(t.split('@').next().unwrap());
        }
        if !s.is_empty() {
            s.push_str("::");
        }
        s.push_str(&self.name);
        s
    }
    pub fn has_self(&self) -> bool {
        matches!(self.sig.inputs.first(), Some(syn::FnArg::Receiver(_)))
    }
}
#[derive(Clone)]
pub struct StructInfo {
    pub name: String,
    pub file: String,
    pub module: Vec<String>,
    pub generics: Vec<String>,
    pub fields: Vec<(String, syn::Type)>,
    pub derives: Vec<String>,
    pub line: usize,
}
#[derive(Clone)]
pub struct EnumInfo {
    pub name: String,
    pub module: Vec<String>,
    pub file: String,
    pub variants: Vec<(String, Vec<(String, syn::Type)>)>,
    pub derives: Vec<String>,
}
#[derive(Clone)]
pub struct ConstInfo {
    pub name: String,
    pub file: String,
    pub module: Vec<String>,
    pub self_name: Option<String>,
    pub trait_: Option<String>,
    pub ty: syn::Type,
    pub expr: Option<syn::Expr>,
    pub in_test: bool,
}
#[derive(Clone)]
pub struct ImplInfo {
    pub file: String,
    pub module: Vec<String>,
    pub self_ty: syn::Type,
    pub self_name: String,
    pub trait_: Option<String>,
    pub trait_path: Option<syn::Path>,
    pub types: Vec<(String, syn::Type)>,
    pub line: usize,
    pub in_test: bool,
}
#[derive(Clone)]
pub struct MacroDef {
    pub arms: Vec<(TokenStream, TokenStream)>,
}
#[derive(Default, Clone)]
pub struct Program {
    pub fns: Vec<FnInfo>,
    pub structs: Vec<StructInfo>,
    pub enums: Vec<EnumInfo>,
    pub consts: Vec<ConstInfo>,
    pub impls: Vec<ImplInfo>,
    pub aliases: Vec<(String, Vec<String>, Vec<String>, syn::Type)>, // name, module, generics, type
    pub uses: HashMap<Vec<String>, HashMap<String, Vec<String>>>,    // module -> local name -> path
    pub macros: HashMap<String, MacroDef>,
    pub files: BTreeMap<String, syn::File>,
    pub by_name: HashMap<String, Vec<usize>>,
    pub features: Vec<String>,
    pub raw: BTreeMap<String, String>,
    pub derive_traits: Vec<String>,
    /// trait, associated type, its bounds, module of the trait
    pub assoc_bounds: Vec<(String, String, Vec<syn::TypeParamBound>, Vec<String>)>,
    /// units declared by the unit system macro
    pub unit_names: std::collections::HashSet<String>,
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p
            .path
            .segments
            .last()
            .map(|s| s.ident.to_string())
            .unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        syn::Type::Paren(r) => type_name(&r.elem),
        syn::Type::Group(r) => type_name(&r.elem),
        syn::Type::Slice(_) => "[]".into(),
        syn::Type::Array(_) => "[]".into(),
        syn::Type::Tuple(_) => "()".into(),
        _ => "?".into(),
    }
}

pub fn cfg_eval(meta: &TokenStream, features: &[String]) -> Option<bool> {
    // parse predicate
    let toks: Vec<TokenTree> = meta.clone().into_iter().collect();
    match toks.as_slice() {
        [TokenTree::Ident(i)] => match i.to_string().as_str() {
            "test" => Some(false),
            "debug_assertions" => Some(true),
            "unix" => Some(true),
            _ => Some(false),
        },
        [TokenTree::Ident(i), TokenTree::Group(g)] => {
            let parts = split_commas(g.stream());
            let vals: Vec<bool> = parts
                .into_iter()
                .filter(|p| !p.is_empty())
                .filter_map(|p| cfg_eval(&p, features))
                .collect();
            match i.to_string().as_str() {
                "not" => Some(!vals.first().copied().unwrap_or(false)),
                "all" => Some(vals.iter().all(|x| *x)),
                "any" => Some(vals.iter().any(|x| *x)),
                _ => None,
            }
        }
        [TokenTree::Ident(i), TokenTree::Punct(_), TokenTree::Literal(l)] => {
            let v = l.to_string().trim_matches('"').to_string();
            if *i == "feature" {
                Some(features.contains(&v))
            } else {
                Some(false)
            }
        }
        _ => None,
    }
}
pub fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => {
                out.push(cur.drain(..).collect());
            }
            _ => cur.push(t),
        }
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}
/// (enabled, is_test)
pub fn cfg_ok(attrs: &[syn::Attribute], features: &[String]) -> (bool, bool) {
    let mut ok = true;
    let mut test = false;
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let syn::Meta::List(l) = &a.meta {
                let s = l.tokens.to_string();
                if s == "test" {
                    test = true;
                    ok = false;
                } else if let Some(false) = cfg_eval(&l.tokens, features) {
                    ok = false;
                }
            }
        }
        if a.path().is_ident("test") {
            test = true;
            ok = false;
        }
    }
    (ok, test)
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let syn::Meta::List(l) = &a.meta {
                for p in split_commas(l.tokens.clone()) {
                    let last = p
                        .into_iter()
                        .filter_map(|t| match t {
                            TokenTree::Ident(i) => Some(i.to_string()),
                            _ => None,
                        })
                        .last();
                    if let Some(x) = last {
                        out.push(x);
                    }
                }
            }
        }
    }
    out
}

fn fields_of(f: &syn::Fields) -> Vec<(String, syn::Type)> {
    match f {
        syn::Fields::Named(n) => n
            .named
            .iter()
            .map(|x| (x.ident.as_ref().unwrap().to_string(), x.ty.clone()))
            .collect(),
        syn::Fields::Unnamed(n) => n
            .unnamed
            .iter()
            .enumerate()
            .map(|(i, x)| (i.to_string(), x.ty.clone()))
            .collect(),
        syn::Fields::Unit => vec![],
    }
}

impl Program {
    /// imports inside function bodies, and the variants of enumerations imported by a glob
    fn local_uses(&mut self) {
        struct V(Vec<(String, Vec<String>)>);
        impl<'a> syn::visit::Visit<'a> for V {
            fn visit_item_use(&mut self, u: &'a syn::ItemUse) {
                use_tree(&u.tree, vec![], &mut self.0);
            }
        }
        let mut add = vec![];
        for f in &self.fns {
            if let Some(b) = &f.block {
                let mut v = V(vec![]);
                syn::visit::Visit::visit_block(&mut v, b);
                for (n, mut p) in v.0 {
                    if let (Some(s), Some(x)) = (&f.self_name, p.last_mut()) {
                        if x == "Self" {
                            *x = s.clone();
                        }
                    }
                    add.push((f.module.clone(), n, p));
                }
            }
        }
        for (m, n, p) in add {
            self.uses.entry(m).or_default().entry(n).or_insert(p);
        }
        let enums: HashMap<String, Vec<String>> = self.enums.iter().map(|e| (e.name.clone(), e.variants.iter().map(|v| v.0.clone()).collect())).collect();
        for u in self.uses.values_mut() {
            let globs: Vec<Vec<String>> = u.iter().filter(|x| x.0.starts_with('*')).map(|x| x.1.clone()).collect();
            for g in globs {
                let Some(e) = g.last() else { continue };
                for v in enums.get(e).into_iter().flatten() {
                    u.entry(v.clone()).or_insert_with(|| vec![e.clone(), v.clone()]);
                }
            }
        }
    }
    pub fn load(root: &Path, features: &[String]) -> Result<Program, String> {
        let mut p = Program {
            features: features.to_vec(),
            ..Default::default()
        };
        let src = root.join("src");
        let mut files = vec![];
        collect(&src, &mut files);
        files.sort();
        let mut parsed = vec![];
        for f in files {
            let rel = f.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let text = std::fs::read_to_string(&f).map_err(|e| format!("{rel}: {e}"))?;
            let file = syn::parse_file(&text).map_err(|e| format!("{rel}: does not parse: {e}"))?;
            p.raw.insert(rel.clone(), text);
            parsed.push((rel, file));
        }
        // test modules declared via `#[cfg(test)] mod x;`
        let mut test_mods: Vec<Vec<String>> = vec![];
        for (rel, file) in &parsed {
            let m = module_of(rel);
            for it in &file.items {
                if let syn::Item::Mod(x) = it {
                    if x.content.is_none() && cfg_ok(&x.attrs, features).1 {
                        let mut mm = m.clone();
                        mm.push(x.ident.to_string());
                        test_mods.push(mm);
                    }
                }
                if let syn::Item::Macro(m) = it {
                    p.add_macro(m);
                }
            }
        }
        for (rel, file) in parsed {
            let m = module_of(&rel);
            let t = test_mods.iter().any(|tm| m.starts_with(tm));
            p.items(&rel, &m, &file.items, t);
            p.files.insert(rel, file);
        }
        p.local_uses();
        p.unit_names = unit_names(&p.files);
        p.canon_structs();
        p.canon_impls();
        for (i, f) in p.fns.iter_mut().enumerate() {
            f.id = i;
            p.by_name.entry(f.name.clone()).or_default().push(i);
        }
        Ok(p)
    }
    /// structs that share a name are told apart as `Name@module`
    fn canon_structs(&mut self) {
        let mut seen: Vec<String> = vec![];
        for s in self.structs.iter_mut() {
            if s.name.contains('@') {
                continue;
            }
            if seen.contains(&s.name) {
                s.name = format!("{}@{}", s.name, s.module.join("::"));
            } else {
                seen.push(s.name.clone());
            }
        }
    }
    fn canon_impls(&mut self) {
        let mut fns = std::mem::take(&mut self.fns);
        for f in fns.iter_mut() {
            if let Some(n) = &f.self_name {
                let m = self.struct_name(n, &f.module, None);
                f.self_name = Some(m);
            }
        }
        self.fns = fns;
        let mut impls = std::mem::take(&mut self.impls);
        for i in impls.iter_mut() {
            i.self_name = self.struct_name(&i.self_name, &i.module, None);
        }
        self.impls = impls;
    }
    /// the struct meant by `name` in `module` (or by a path ending in it)
    pub fn struct_name(&self, name: &str, module: &[String], path: Option<&[String]>) -> String {
        if name.contains('@') {
            return name.into();
        }
        let c: Vec<&StructInfo> = self.structs.iter().filter(|s| s.name.split('@').next() == Some(name)).collect();
        if c.len() < 2 {
            return name.into();
        }
        let import = self.uses.get(module).and_then(|u| u.get(name));
        let path: Option<Vec<String>> = match (path, import) {
            (Some(p), _) if p.len() > 1 => Some(p.to_vec()),
            (_, Some(p)) => Some(p.clone()),
            _ => None,
        };
        if path.is_none() {
            if let Some(s) = c.iter().find(|s| s.module == module) {
                return s.name.clone();
            }
        }
        if let Some(p) = path {
            let segs: Vec<&String> = p[..p.len() - 1].iter().filter(|x| !matches!(x.as_str(), "crate" | "super" | "self")).collect();
            if !segs.is_empty() {
                let m: Vec<&&StructInfo> = c.iter().filter(|s| segs.iter().all(|g| s.module.contains(g))).collect();
                if m.len() == 1 {
                    return m[0].name.clone();
                }
            }
            if p[0] == "crate" && segs.iter().any(|s| *s == "prelude" || *s == "components") {
                if let Some(s) = c.iter().find(|s| s.module.len() == 1) {
                    return s.name.clone();
                }
            }
        }
        let common = |s: &StructInfo| s.module.iter().zip(module).take_while(|(a, b)| a == b).count();
        let best = c.iter().map(|s| common(s)).max().unwrap();
        c.iter().find(|s| common(s) == best).unwrap().name.clone()
    }
    /// add a single extra source (specification file)
    pub fn add_source(&mut self, rel: &str, text: &str, module: &[String]) -> Result<(), String> {
        let file = syn::parse_file(text).map_err(|e| {
            let s = e.span().start();
            format!("{rel}:{}:{}: {e}", s.line, s.column)
        })?;
        for it in &file.items {
            if let syn::Item::Macro(m) = it {
                self.add_macro(m);
            }
        }
        let m = module.to_vec();
        self.items(rel, &m, &file.items, false);
        self.canon_impls();
        self.by_name.clear();
        for (i, f) in self.fns.iter_mut().enumerate() {
            f.id = i;
            self.by_name.entry(f.name.clone()).or_default().push(i);
        }
        self.files.insert(rel.into(), file);
        Ok(())
    }
    fn add_macro(&mut self, m: &syn::ItemMacro) {
        if let Some(id) = &m.ident {
            let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
            let mut arms = vec![];
            let mut i = 0;
            while i < toks.len() {
                if let TokenTree::Group(pat) = &toks[i] {
                    // => { body }
                    let mut j = i + 1;
                    while j < toks.len() {
                        if let TokenTree::Group(body) = &toks[j] {
                            arms.push((pat.stream(), body.stream()));
                            break;
                        }
                        j += 1;
                    }
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            self.macros.insert(id.to_string(), MacroDef { arms });
        }
    }
    pub fn expand(&self, name: &str, args: TokenStream) -> Option<TokenStream> {
        let m = self.macros.get(name)?;
        for (pat, body) in &m.arms {
            let mut b = HashMap::new();
            let p: Vec<TokenTree> = pat.clone().into_iter().collect();
            let a: Vec<TokenTree> = args.clone().into_iter().collect();
            if match_pat(&p, &a, &mut b) {
                return Some(subst_tokens(body.clone(), &b));
            }
        }
        None
    }
    fn items(&mut self, file: &str, module: &[String], items: &[syn::Item], test: bool) {
        for it in items {
            self.item(file, module, it, test);
        }
    }
    fn item(&mut self, file: &str, module: &[String], it: &syn::Item, test: bool) {
        let feats = self.features.clone();
        let chk = |a: &[syn::Attribute]| {
            let (ok, t) = cfg_ok(a, &feats);
            (ok || t, t || test)
        };
        match it {
            syn::Item::Fn(f) => {
                let (ok, t) = chk(&f.attrs);
                if !ok {
                    return;
                }
                self.fns.push(FnInfo {
                    id: 0,
                    file: file.into(),
                    module: module.to_vec(),
                    self_ty: None,
                    self_name: None,
                    trait_: None,
                    is_trait_def: false,
                    impl_generics: None,
                    name: f.sig.ident.to_string(),
                    sig: f.sig.clone(),
                    block: Some((*f.block).clone()),
                    attrs: f.attrs.clone(),
                    vis_pub: !matches!(f.vis, syn::Visibility::Inherited),
                    line: f.sig.span().start().line,
                    in_test: t,
                });
            }
            syn::Item::Impl(im) => {
                let (ok, t) = chk(&im.attrs);
                if !ok {
                    return;
                }
                let sn = type_name(&im.self_ty);
                let tr = im
                    .trait_
                    .as_ref()
                    .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let mut types = vec![];
                for x in &im.items {
                    match x {
                        syn::ImplItem::Fn(f) => {
                            let (ok, t2) = chk(&f.attrs);
                            if !ok {
                                continue;
                            }
                            self.fns.push(FnInfo {
                                id: 0,
                                file: file.into(),
                                module: module.to_vec(),
                                self_ty: Some((*im.self_ty).clone()),
                                self_name: Some(sn.clone()),
                                trait_: tr.clone(),
                                is_trait_def: false,
                                impl_generics: Some(im.generics.clone()),
                                name: f.sig.ident.to_string(),
                                sig: f.sig.clone(),
                                block: Some(f.block.clone()),
                                attrs: f.attrs.clone(),
                                vis_pub: !matches!(f.vis, syn::Visibility::Inherited)
                                    || tr.is_some(),
                                line: f.sig.span().start().line,
                                in_test: t || t2,
                            });
                        }
                        syn::ImplItem::Const(c) => self.consts.push(ConstInfo {
                            name: c.ident.to_string(),
                            file: file.into(),
                            module: module.to_vec(),
                            self_name: Some(sn.clone()),
                            trait_: tr.clone(),
                            ty: c.ty.clone(),
                            expr: Some(c.expr.clone()),
                            in_test: t,
                        }),
                        syn::ImplItem::Type(ty) => {
                            types.push((ty.ident.to_string(), ty.ty.clone()))
                        }
                        _ => {}
                    }
                }
                self.impls.push(ImplInfo {
                    file: file.into(),
                    module: module.to_vec(),
                    self_ty: (*im.self_ty).clone(),
                    self_name: sn,
                    trait_: tr,
                    trait_path: im.trait_.as_ref().map(|x| x.1.clone()),
                    types,
                    line: im.self_ty.span().start().line,
                    in_test: t,
                });
            }
            syn::Item::Trait(tr) => {
                let (ok, t) = chk(&tr.attrs);
                if !ok {
                    return;
                }
                let tn = tr.ident.to_string();
                self.derive_traits.push(tn.clone());
                for x in &tr.items {
                    match x {
                        syn::TraitItem::Fn(f) => {
                            self.fns.push(FnInfo {
                                id: 0,
                                file: file.into(),
                                module: module.to_vec(),
                                self_ty: None,
                                self_name: Some(tn.clone()),
                                trait_: Some(tn.clone()),
                                is_trait_def: true,
                                impl_generics: None,
                                name: f.sig.ident.to_string(),
                                sig: f.sig.clone(),
                                block: f.default.clone(),
                                attrs: f.attrs.clone(),
                                vis_pub: true,
                                line: f.sig.span().start().line,
                                in_test: t,
                            });
                        }
                        syn::TraitItem::Type(a) => {
                            self.assoc_bounds.push((tn.clone(), a.ident.to_string(), a.bounds.iter().cloned().collect(), module.to_vec()));
                        }
                        syn::TraitItem::Const(c) => self.consts.push(ConstInfo {
                            name: c.ident.to_string(),
                            file: file.into(),
                            module: module.to_vec(),
                            self_name: Some(tn.clone()),
                            trait_: Some(tn.clone()),
                            ty: c.ty.clone(),
                            expr: c.default.as_ref().map(|x| x.1.clone()),
                            in_test: t,
                        }),
                        _ => {}
                    }
                }
            }
            syn::Item::Struct(s) => {
                let (ok, _) = chk(&s.attrs);
                if !ok {
                    return;
                }
                let mut d = derives(&s.attrs);
                for a in &s.attrs {
                    d.push(a.path().segments.last().unwrap().ident.to_string());
                }
                self.structs.push(StructInfo {
                    name: s.ident.to_string(),
                    file: file.into(),
                    module: module.to_vec(),
                    generics: s
                        .generics
                        .type_params()
                        .map(|x| x.ident.to_string())
                        .collect(),
                    fields: fields_of(&s.fields),
                    derives: d,
                    line: s.ident.span().start().line,
                });
            }
            syn::Item::Enum(e) => {
                let (ok, _) = chk(&e.attrs);
                if !ok {
                    return;
                }
                self.enums.push(EnumInfo {
                    name: e.ident.to_string(),
                    module: module.to_vec(),
                    file: file.into(),
                    variants: e
                        .variants
                        .iter()
                        .map(|v| (v.ident.to_string(), fields_of(&v.fields)))
                        .collect(),
                    derives: derives(&e.attrs),
                });
            }
            syn::Item::Const(c) => {
                let (ok, t) = chk(&c.attrs);
                if !ok {
                    return;
                }
                self.consts.push(ConstInfo {
                    name: c.ident.to_string(),
                    file: file.into(),
                    module: module.to_vec(),
                    self_name: None,
                    trait_: None,
                    ty: (*c.ty).clone(),
                    expr: Some((*c.expr).clone()),
                    in_test: t,
                });
            }
            syn::Item::Static(c) => {
                let (ok, t) = chk(&c.attrs);
                if !ok {
                    return;
                }
                self.consts.push(ConstInfo {
                    name: c.ident.to_string(),
                    file: file.into(),
                    module: module.to_vec(),
                    self_name: None,
                    trait_: None,
                    ty: (*c.ty).clone(),
                    expr: Some((*c.expr).clone()),
                    in_test: t,
                });
            }
            syn::Item::Type(t) => {
                let (ok, _) = chk(&t.attrs);
                if !ok {
                    return;
                }
                self.aliases.push((
                    t.ident.to_string(),
                    module.to_vec(),
                    t.generics
                        .params
                        .iter()
                        .filter_map(|x| match x {
                            syn::GenericParam::Type(t) => Some(t.ident.to_string()),
                            syn::GenericParam::Const(t) => Some(t.ident.to_string()),
                            _ => None,
                        })
                        .collect(),
                    (*t.ty).clone(),
                ));
            }
            syn::Item::Mod(m) => {
                let (ok, t) = chk(&m.attrs);
                if !ok {
                    return;
                }
                if let Some((_, items)) = &m.content {
                    let mut mm = module.to_vec();
                    mm.push(m.ident.to_string());
                    self.items(file, &mm, items, t);
                }
            }
            syn::Item::Use(u) => {
                let (ok, _) = chk(&u.attrs);
                if !ok {
                    return;
                }
                let mut v = vec![];
                use_tree(&u.tree, vec![], &mut v);
                let e = self.uses.entry(module.to_vec()).or_default();
                for (n, p) in v {
                    e.insert(n, p);
                }
            }
            syn::Item::Macro(m) => {
                if m.ident.is_some() {
                    return;
                }
                let (ok, t) = chk(&m.attrs);
                if !ok {
                    return;
                }
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(ts) = self.expand(&name, m.mac.tokens.clone()) {
                    if let Ok(f) = syn::parse2::<syn::File>(ts) {
                        self.items(file, module, &f.items, t);
                    }
                }
            }
            _ => {}
        }
    }
}
fn use_tree(t: &syn::UseTree, pre: Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            let mut q = pre;
            q.push(p.ident.to_string());
            use_tree(&p.tree, q, out);
        }
        syn::UseTree::Name(n) => {
            let mut q = pre;
            let id = n.ident.to_string();
            if id == "self" {
                let l = q.last().cloned().unwrap_or_default();
                out.push((l, q));
            } else {
                q.push(id.clone());
                out.push((id, q));
            }
        }
        syn::UseTree::Rename(r) => {
            let mut q = pre;
            q.push(r.ident.to_string());
            out.push((r.rename.to_string(), q));
        }
        syn::UseTree::Group(g) => {
            for x in &g.items {
                use_tree(x, pre.clone(), out);
            }
        }
        syn::UseTree::Glob(_) => {
            let l = pre.last().cloned().unwrap_or_default();
            out.push((format!("*{l}"), pre));
        }
    }
}
fn unit_names(files: &BTreeMap<String, syn::File>) -> std::collections::HashSet<String> {
    use proc_macro2::TokenTree as TT;
    fn walk(ts: TokenStream, out: &mut std::collections::HashSet<String>) {
        let v: Vec<TT> = ts.into_iter().collect();
        for k in 0..v.len() {
            if let TT::Group(g) = &v[k] {
                if matches!(g.delimiter(), proc_macro2::Delimiter::Bracket) {
                    walk(g.stream(), out);
                }
            }
            if let TT::Ident(i) = &v[k] {
                if i == "unit" {
                    match v.get(k + 1) {
                        Some(TT::Ident(n)) => {
                            out.insert(n.to_string());
                        }
                        Some(TT::Group(g)) => {
                            if let Some(TT::Ident(n)) = g.stream().into_iter().next() {
                                out.insert(n.to_string());
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    let mut out = Default::default();
    for f in files.values() {
        for i in &f.items {
            if let syn::Item::Macro(m) = i {
                if m.mac.path.segments.last().map(|s| s.ident == "unit_system").unwrap_or(false) {
                    walk(m.mac.tokens.clone(), &mut out);
                }
            }
        }
    }
    out
}
pub fn module_of(rel: &str) -> Vec<String> {
    let p = rel.strip_prefix("src/").unwrap_or(rel);
    let p = p.strip_suffix(".rs").unwrap_or(p);
    let mut v: Vec<String> = p.split('/').map(|s| s.to_string()).collect();
    if matches!(v.last().map(|s| s.as_str()), Some("mod") | Some("lib") | Some("main")) {
        if v.last().unwrap() == "main" {
            return v;
        }
        v.pop();
    }
    v
}
pub fn collect(d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                collect(&p, out);
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Bind {
    One(Vec<TokenTree>),
    Many(Vec<HashMap<String, Bind>>),
}
fn match_pat(p: &[TokenTree], a: &[TokenTree], b: &mut HashMap<String, Bind>) -> bool {
    let mut i = 0;
    let mut j = 0;
    while i < p.len() {
        match &p[i] {
            TokenTree::Punct(d) if d.as_char() == '$' => match p.get(i + 1) {
                Some(TokenTree::Ident(name)) => {
                    // $name : frag
                    let frag = match p.get(i + 3) {
                        Some(TokenTree::Ident(f)) => f.to_string(),
                        _ => return false,
                    };
                    i += 4;
                    match frag.as_str() {
                        "ident" | "tt" | "literal" | "lifetime" => {
                            if j >= a.len() {
                                return false;
                            }
                            if frag == "ident" && !matches!(a[j], TokenTree::Ident(_)) {
                                return false;
                            }
                            b.insert(name.to_string(), Bind::One(vec![a[j].clone()]));
                            j += 1;
                        }
                        _ => {
                            // up to next ',' or ';' or '=>' at this level (or end)
                            let stop = match p.get(i) {
                                Some(TokenTree::Punct(q)) => Some(q.as_char()),
                                _ => None,
                            };
                            let st = j;
                            let mut depth = 0i32;
                            while j < a.len() {
                                if let TokenTree::Punct(q) = &a[j] {
                                    if q.as_char() == '<' {
                                        depth += 1;
                                    }
                                    if q.as_char() == '>' {
                                        depth -= 1;
                                    }
                                    if depth <= 0
                                        && (Some(q.as_char()) == stop || q.as_char() == ',')
                                    {
                                        break;
                                    }
                                }
                                j += 1;
                            }
                            if st == j {
                                return false;
                            }
                            b.insert(name.to_string(), Bind::One(a[st..j].to_vec()));
                        }
                    }
                }
                Some(TokenTree::Group(g)) => {
                    // $( ... ) sep? op
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut k = i + 2;
                    let mut sep = None;
                    if let Some(TokenTree::Punct(q)) = p.get(k) {
                        if !matches!(q.as_char(), '*' | '+' | '?') {
                            sep = Some(q.as_char());
                            k += 1;
                        }
                    }
                    i = k + 1;
                    // split the remaining args by separator
                    let rest = &a[j..];
                    let mut reps = vec![];
                    let parts: Vec<Vec<TokenTree>> = match sep {
                        Some(c) => {
                            let mut v = vec![];
                            let mut cur = vec![];
                            for t in rest {
                                match t {
                                    TokenTree::Punct(q) if q.as_char() == c => {
                                        v.push(std::mem::take(&mut cur))
                                    }
                                    _ => cur.push(t.clone()),
                                }
                            }
                            if !cur.is_empty() {
                                v.push(cur);
                            }
                            v
                        }
                        None => {
                            if rest.is_empty() {
                                vec![]
                            } else {
                                vec![rest.to_vec()]
                            }
                        }
                    };
                    for part in parts {
                        let mut bb = HashMap::new();
                        if !match_pat(&inner, &part, &mut bb) {
                            return false;
                        }
                        reps.push(bb);
                    }
                    let mut names = vec![];
                    collect_names(&inner, &mut names);
                    for n in names {
                        b.insert(n, Bind::Many(reps.clone()));
                    }
                    j = a.len();
                }
                _ => return false,
            },
            TokenTree::Group(g) => {
                match a.get(j) {
                    Some(TokenTree::Group(h)) if h.delimiter() == g.delimiter() => {
                        let pi: Vec<TokenTree> = g.stream().into_iter().collect();
                        let ai: Vec<TokenTree> = h.stream().into_iter().collect();
                        if !match_pat(&pi, &ai, b) {
                            return false;
                        }
                    }
                    _ => return false,
                }
                i += 1;
                j += 1;
            }
            t => {
                match a.get(j) {
                    Some(x) if x.to_string() == t.to_string() => {}
                    None if matches!(t, TokenTree::Punct(q) if q.as_char()==',') => {
                        i += 1;
                        continue;
                    }
                    _ => return false,
                }
                i += 1;
                j += 1;
            }
        }
    }
    // allow a trailing comma
    if j + 1 == a.len() {
        if let TokenTree::Punct(q) = &a[j] {
            if q.as_char() == ',' {
                return true;
            }
        }
    }
    j == a.len()
}
fn collect_names(p: &[TokenTree], out: &mut Vec<String>) {
    let mut i = 0;
    while i < p.len() {
        match &p[i] {
            TokenTree::Punct(d) if d.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = p.get(i + 1) {
                    out.push(n.to_string());
                }
                i += 1;
            }
            TokenTree::Group(g) => {
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                collect_names(&v, out);
                i += 1;
            }
            _ => i += 1,
        }
    }
}
fn subst_tokens(body: TokenStream, b: &HashMap<String, Bind>) -> TokenStream {
    let toks: Vec<TokenTree> = body.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(d) if d.as_char() == '$' => match toks.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    match b.get(&n.to_string()) {
                        Some(Bind::One(v)) => {
                            if v.len() == 1 {
                                out.extend(v.clone());
                            } else {
                                out.push(TokenTree::Group(proc_macro2::Group::new(
                                    Delimiter::None,
                                    v.iter().cloned().collect(),
                                )));
                            }
                        }
                        _ => {
                            if *n == "crate" {
                                out.push(toks[i + 1].clone());
                            }
                        }
                    }
                    i += 2;
                }
                Some(TokenTree::Group(g)) => {
                    let mut k = i + 2;
                    let mut sep: Option<TokenTree> = None;
                    if let Some(TokenTree::Punct(q)) = toks.get(k) {
                        if !matches!(q.as_char(), '*' | '+' | '?') {
                            sep = Some(toks[k].clone());
                            k += 1;
                        }
                    }
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut names = vec![];
                    collect_names(&inner, &mut names);
                    let reps = names.iter().find_map(|n| match b.get(n) {
                        Some(Bind::Many(v)) => Some(v.clone()),
                        _ => None,
                    });
                    if let Some(reps) = reps {
                        for (x, bb) in reps.iter().enumerate() {
                            let mut all = b.clone();
                            for (k2, v2) in bb {
                                all.insert(k2.clone(), v2.clone());
                            }
                            if x > 0 {
                                if let Some(s) = &sep {
                                    out.push(s.clone());
                                }
                            }
                            out.extend(subst_tokens(g.stream(), &all));
                        }
                    }
                    i = k + 1;
                }
                _ => i += 1,
            },
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst_tokens(g.stream(), b));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                i += 1;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    out.into_iter().collect()
}
