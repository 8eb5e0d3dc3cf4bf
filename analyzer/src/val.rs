use crate::term::T;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unk,
    Int,
    Float,
    Bool,
    Str,
    Unit,
    Named(String, Vec<Ty>),
    Tuple(Vec<Ty>),
    /// arrays and vectors; the length of arrays if known
    Arr(Box<Ty>, Option<T>),
    /// a constant generic argument
    Len(T),
    Opt(Box<Ty>),
    Res(Box<Ty>, Box<Ty>),
}
impl Ty {
    pub fn arr(t: Ty) -> Ty {
        Ty::Arr(Box::new(t), None)
    }
    pub fn elem(&self) -> Ty {
        match self {
            Ty::Arr(t, _) => (**t).clone(),
            Ty::Named(n, a) if (n == "HashMap" || n == "BTreeMap" || n == "BiMap") && a.len() >= 2 => {
                Ty::Tuple(vec![a[0].clone(), a[1].clone()])
            }
            Ty::Named(n, a) if n == "HashSet" && !a.is_empty() => a[0].clone(),
            _ => Ty::Unk,
        }
    }
    pub fn inner(&self) -> Ty {
        match self {
            Ty::Opt(t) => (**t).clone(),
            Ty::Res(t, _) => (**t).clone(),
            _ => Ty::Unk,
        }
    }
    pub fn name(&self) -> Option<&str> {
        match self {
            Ty::Named(n, _) => Some(n),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pj {
    Field(String),
    Index(T),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Place {
    pub root: usize,
    pub proj: Vec<Pj>,
}
impl Place {
    pub fn root(r: usize) -> Self {
        Place { root: r, proj: vec![] }
    }
    pub fn f(&self, n: &str) -> Self {
        let mut p = self.clone();
        p.proj.push(Pj::Field(n.into()));
        p
    }
    pub fn i(&self, t: T) -> Self {
        let mut p = self.clone();
        p.proj.push(Pj::Index(t));
        p
    }
}
pub type Scope = HashMap<String, usize>;

#[derive(Clone)]
pub struct Clo {
    pub params: Vec<syn::Pat>,
    pub body: Rc<syn::Expr>,
    pub env: Env,
}
/// lexical environment: variable names -> roots, plus the item context
#[derive(Clone)]
pub struct Env {
    pub vars: Rc<EnvNode>,
    pub ctx: Rc<Ctx>,
}
pub enum EnvNode {
    Nil,
    Bind(String, usize, Rc<EnvNode>),
}
impl Env {
    pub fn get(&self, n: &str) -> Option<usize> {
        let mut e: &EnvNode = &self.vars;
        loop {
            match e {
                EnvNode::Nil => return None,
                EnvNode::Bind(m, r, nx) => {
                    if m == n {
                        return Some(*r);
                    }
                    e = nx;
                }
            }
        }
    }
    pub fn bind(&mut self, n: &str, r: usize) {
        self.vars = Rc::new(EnvNode::Bind(n.into(), r, self.vars.clone()));
    }
}
/// item context of the function being evaluated
pub struct Ctx {
    pub module: Vec<String>,
    pub self_ty: Ty,
    pub self_name: Option<String>,
    pub trait_: Option<String>,
    pub ret_ty: Ty,
    pub generics: HashMap<String, Ty>,
    pub fid: usize,
    /// values of constant generic parameters
    pub consts: HashMap<String, T>,
}
#[derive(Clone)]
pub enum It {
    Range(T, T, Ty),          // lo, count
    RangeFrom(T, Ty),
    Elems(T, Ty),             // container value, element type
    ElemsMut(Place, Ty),      // place of the container
    Drain(T, Ty),             // elements of a value already taken out
    Items(Vec<Val>),
    Map(Box<It>, Box<Val>),
    Filter(Box<It>, Box<Val>),
    FilterMap(Box<It>, Box<Val>),
    FlatMap(Box<It>, Box<Val>),
    Flatten(Box<It>),
    Enumerate(Box<It>),
    Zip(Box<It>, Box<It>),
    Chain(Box<It>, Box<It>),
    Rev(Box<It>),
    Skip(Box<It>, T),
    Take(Box<It>, T),
    StepBy(Box<It>, T),
    TakeWhile(Box<It>, Box<Val>),
    Inspect(Box<It>, Box<Val>),
    Windows(T, T, Ty),
    Cycle(Box<It>),
    /// map entries by mutable value: place, key type, value type, values only
    EntriesMut(Place, Ty, Ty, bool),
    /// chunk k of a value
    Chunks(T, T, Ty),
}
#[derive(Clone)]
pub enum Val {
    T(T, Ty),
    Ref(Place, Ty),
    OptRef(T, Place, Ty),
    Tup(Vec<Val>),
    Clo(Rc<Clo>),
    It(Box<It>),
    /// function item, enum constructor or method path used as a value
    Fn(Vec<String>, Rc<Ctx>),
}
#[derive(Clone)]
pub struct State {
    pub vars: Vec<Option<Val>>,
    pub world: T,
    pub ret: T,
    pub retval: Option<Val>,
    pub brk: T,
    /// condition under which the enclosing code has already left
    pub base: T,
    pub cont: T,
    pub brkval: Option<Val>,
    pub dead: bool,
    pub panics: T,
}
