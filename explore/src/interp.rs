//! A small interpreter for the Rust subset spanned by the program grammar (gen.rs).
//!
//! It runs both the original program (attributes erased) and the real macro's output. For the
//! output it also enforces Rust's "one type per join point" rule dynamically: every value that
//! reaches the same match/if/loop/return/let/variant-payload site, over all explored paths, must
//! have one type. Anything it does not know is `Unsupported` (never a verdict).

use std::{cell::RefCell, collections::HashMap, fmt, rc::Rc};

use quote::ToTokens;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Hole,
    Con(Rc<str>, Vec<Ty>),
}

impl Ty {
    fn con(s: &str, a: Vec<Ty>) -> Ty {
        Ty::Con(s.into(), a)
    }
    pub fn mentions(&self, name: &str) -> bool {
        match self {
            Ty::Hole => false,
            Ty::Con(n, a) => &**n == name || a.iter().any(|t| t.mentions(name)),
        }
    }
}

impl fmt::Display for Ty {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Ty::Hole => f.write_str("_"),
            Ty::Con(n, a) => {
                f.write_str(n)?;
                if !a.is_empty() {
                    f.write_str("<")?;
                    for (i, t) in a.iter().enumerate() {
                        if i > 0 {
                            f.write_str(",")?;
                        }
                        write!(f, "{t}")?;
                    }
                    f.write_str(">")?;
                }
                Ok(())
            }
        }
    }
}

fn unify(a: &Ty, b: &Ty) -> Option<Ty> {
    match (a, b) {
        (Ty::Hole, x) | (x, Ty::Hole) => Some(x.clone()),
        (Ty::Con(n, x), Ty::Con(m, y)) => {
            if n != m || x.len() != y.len() {
                return None;
            }
            let mut v = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y) {
                v.push(unify(p, q)?);
            }
            Some(Ty::Con(n.clone(), v))
        }
    }
}

#[derive(Clone)]
pub enum V<'a> {
    Unit,
    Bool(bool),
    Int(i64),
    /// tags, tuples, Option/Result, method wrappers, ...
    Con(Rc<str>, Vec<V<'a>>),
    Enum { name: Rc<str>, addr: usize, variant: usize, val: Box<V<'a>> },
    Clo(Rc<Clo<'a>>),
    Fut(Rc<(&'a Block, usize, Rc<Scope<'a>>)>),
    Iter(i64),
}

pub struct Clo<'a> {
    expr: &'a ExprClosure,
    env: Rc<Scope<'a>>,
}

impl fmt::Display for V<'_> {
    /// erased rendering: enum wrappers are invisible
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::Unit => f.write_str("()"),
            V::Bool(b) => write!(f, "{b}"),
            V::Int(i) => write!(f, "{i}"),
            V::Con(n, a) => {
                let (open, close) = match &**n {
                    "tuple" => ("(", ")"),
                    "array" => ("[", "]"),
                    n => {
                        f.write_str(n)?;
                        if a.is_empty() { ("", "") } else { ("(", ")") }
                    }
                };
                f.write_str(open)?;
                for (i, t) in a.iter().enumerate() {
                    if i > 0 {
                        f.write_str(", ")?;
                    }
                    write!(f, "{t}")?;
                }
                f.write_str(close)
            }
            V::Enum { val, .. } => write!(f, "{val}"),
            V::Clo(_) => f.write_str("<closure>"),
            V::Fut(_) => f.write_str("<future>"),
            V::Iter(_) => f.write_str("<iter>"),
        }
    }
}

pub struct EnumDef<'a> {
    pub item: &'a ItemEnum,
}

#[derive(Default)]
pub struct Scope<'a> {
    vars: RefCell<Vec<(String, Option<V<'a>>, usize)>>,
    items: RefCell<Vec<&'a Item>>,
    parent: Option<Rc<Scope<'a>>>,
}

impl<'a> Scope<'a> {
    fn child(p: &Rc<Scope<'a>>) -> Rc<Scope<'a>> {
        Rc::new(Scope { parent: Some(p.clone()), ..Scope { vars: Default::default(), items: Default::default(), parent: None } })
    }
    fn get(&self, n: &str) -> Option<Option<V<'a>>> {
        for (k, v, _) in self.vars.borrow().iter().rev() {
            if k == n {
                return Some(v.clone());
            }
        }
        self.parent.as_ref().and_then(|p| p.get(n))
    }
    fn set(&self, n: &str, v: V<'a>) -> Option<usize> {
        for (k, s, site) in self.vars.borrow_mut().iter_mut().rev() {
            if k == n {
                *s = Some(v);
                return Some(*site);
            }
        }
        self.parent.as_ref().and_then(|p| p.set(n, v))
    }
    fn find_enum(&self, n: &str) -> Option<&'a ItemEnum> {
        for i in self.items.borrow().iter() {
            if let Item::Enum(e) = i {
                if e.ident == n {
                    return Some(e);
                }
            }
        }
        self.parent.as_ref().and_then(|p| p.find_enum(n))
    }
    fn find_fn(&self, n: &str) -> Option<&'a ItemFn> {
        for i in self.items.borrow().iter() {
            if let Item::Fn(e) = i {
                if e.sig.ident == n {
                    return Some(e);
                }
            }
        }
        self.parent.as_ref().and_then(|p| p.find_fn(n))
    }
}

pub enum Ctl<'a> {
    Break(Option<String>, V<'a>),
    Continue(Option<String>),
    Return(V<'a>),
    Panic,
    Horizon,
    /// ill-typed / unresolvable in the macro output: rustc would reject it
    Ill(String),
    Unsupported(String),
}

type R<'a> = std::result::Result<V<'a>, Ctl<'a>>;

/// Per-program facts accumulated over all explored executions of the macro output.
#[derive(Default)]
pub struct Sites {
    join: HashMap<(usize, u8), Ty>,
    /// (enum addr, variant) -> payload type
    pub payload: HashMap<(usize, usize), Ty>,
    pub enums: HashMap<usize, (String, usize)>,
}

pub struct Interp<'s> {
    pub check: bool,
    pub sites: &'s mut Sites,
    pub prefix: Vec<usize>,
    pub taken: Vec<(usize, usize)>,
    pub trace: Vec<String>,
    pub max_choices: usize,
    pub steps: usize,
    /// macro names that must have been expanded away
    pub must_not_remain: &'s [&'s str],
}

pub enum Outcome {
    Value(String),
    Panic,
    Horizon,
}

fn addr<T>(x: &T) -> usize {
    x as *const T as usize
}

fn lifetime(l: &Option<Lifetime>) -> Option<String> {
    l.as_ref().map(|l| l.ident.to_string())
}

fn label(l: &Option<Label>) -> Option<String> {
    l.as_ref().map(|l| l.name.ident.to_string())
}

macro_rules! unsup { ($($t:tt)*) => { return Err(Ctl::Unsupported(format!($($t)*))) } }

impl<'s> Interp<'s> {
    fn choose<'a>(&mut self, n: usize) -> std::result::Result<usize, Ctl<'a>> {
        let i = self.taken.len();
        if i >= self.max_choices {
            return Err(Ctl::Horizon);
        }
        let c = self.prefix.get(i).copied().unwrap_or(0);
        if c >= n {
            // only possible if the macro output asks different questions than the original
            return Err(Ctl::Ill(format!("choice {i} out of range")));
        }
        self.taken.push((c, n));
        Ok(c)
    }

    pub fn ty<'a>(&self, v: &V<'a>) -> Ty {
        match v {
            V::Unit => Ty::con("()", vec![]),
            V::Bool(_) => Ty::con("bool", vec![]),
            V::Int(_) => Ty::con("int", vec![]),
            V::Con(n, a) => match &**n {
                "Ok" => Ty::con("Result", vec![self.ty(&a[0]), Ty::Hole]),
                "Err" => Ty::con("Result", vec![Ty::Hole, self.ty(&a[0])]),
                "Some" => Ty::con("Option", vec![self.ty(&a[0])]),
                "None" => Ty::con("Option", vec![Ty::Hole]),
                _ => Ty::Con(n.clone(), a.iter().map(|x| self.ty(x)).collect()),
            },
            V::Enum { name, addr, .. } => Ty::con(&format!("{name}@{addr:x}"), vec![]),
            V::Clo(c) => Ty::con(&format!("closure@{:x}", addr(c.expr)), vec![]),
            V::Fut(c) => Ty::con(&format!("future@{:x}", c.1), vec![]),
            V::Iter(_) => Ty::con("It", vec![]),
        }
    }

    fn join<'a>(&mut self, site: (usize, u8), what: &str, v: V<'a>) -> R<'a> {
        if self.check {
            let t = self.ty(&v);
            let n = match self.sites.join.get(&site) {
                None => t,
                Some(o) => match unify(o, &t) {
                    Some(n) => n,
                    None => {
                        return Err(Ctl::Ill(format!("mismatched types at {what}: `{o}` vs `{t}`")));
                    }
                },
            };
            self.sites.join.insert(site, n);
        }
        Ok(v)
    }

    fn expect<'a>(&mut self, want: &Ty, what: &str, v: V<'a>) -> R<'a> {
        if self.check {
            let t = self.ty(&v);
            if unify(want, &t).is_none() {
                return Err(Ctl::Ill(format!("mismatched types at {what}: expected `{want}`, found `{t}`")));
            }
        }
        Ok(v)
    }

    fn step<'a>(&mut self) -> std::result::Result<(), Ctl<'a>> {
        self.steps += 1;
        if self.steps > 20_000 {
            return Err(Ctl::Horizon);
        }
        Ok(())
    }

    pub fn log(&mut self, s: String) {
        self.trace.push(s);
    }

    // ---- blocks and statements

    pub fn block<'a>(&mut self, b: &'a Block, env: &Rc<Scope<'a>>) -> R<'a> {
        let env = Scope::child(env);
        self.stmts(&b.stmts, &env)
    }

    pub fn stmts<'a>(&mut self, stmts: &'a [Stmt], env: &Rc<Scope<'a>>) -> R<'a> {
        self.step()?;
        for s in stmts {
            if let Stmt::Item(i) = s {
                if self.check {
                    if let Item::Enum(e) = i {
                        self.sites.enums.insert(addr(e), (e.ident.to_string(), e.variants.len()));
                    }
                }
                env.items.borrow_mut().push(i);
            }
        }
        let n = stmts.len();
        // each `let` opens a new scope so that shadowing and closures capture correctly
        let mut env = env.clone();
        for (i, s) in stmts.iter().enumerate() {
            match s {
                Stmt::Item(_) => {}
                Stmt::Local(l) => {
                    self.attrs(&l.attrs)?;
                    let mut pat = &l.pat;
                    let mut want = Ty::Hole;
                    if let Pat::Type(p) = pat {
                        want = self.syn_ty(&p.ty)?;
                        pat = &p.pat;
                    }
                    let new = Scope::child(&env);
                    match &l.init {
                        None => match pat {
                            Pat::Ident(p) => new.vars.borrow_mut().push((p.ident.to_string(), None, addr(l))),
                            _ => unsup!("uninit pattern"),
                        },
                        Some(init) => {
                            let v = self.expr(&init.expr, &env)?;
                            let v = self.join((addr(l), 0), "let", v)?;
                            let v = self.expect(&want, "let type", v)?;
                            if !self.bind(pat, v, &new)? {
                                match &init.diverge {
                                    Some((_, e)) => {
                                        let _ = self.expr(e, &env)?;
                                        return Err(Ctl::Ill("let-else block does not diverge".into()));
                                    }
                                    None => return Err(Ctl::Ill("refutable pattern in let".into())),
                                }
                            }
                        }
                    }
                    env = new;
                }
                Stmt::Macro(m) => {
                    self.attrs(&m.attrs)?;
                    let v = self.mac(&m.mac)?;
                    if i + 1 == n && m.semi_token.is_none() {
                        return Ok(v);
                    }
                }
                Stmt::Expr(e, semi) => {
                    let v = self.expr(e, &env)?;
                    if semi.is_none() {
                        if i + 1 == n {
                            return Ok(v);
                        }
                        self.expect(&Ty::con("()", vec![]), "statement", v)?;
                    }
                }
            }
        }
        Ok(V::Unit)
    }

    fn syn_ty<'a>(&self, t: &Type) -> std::result::Result<Ty, Ctl<'a>> {
        Ok(match t {
            Type::Path(p) if p.qself.is_none() => {
                let s = p.path.segments.last().unwrap();
                let name = s.ident.to_string();
                match &s.arguments {
                    PathArguments::None => match &*name {
                        "bool" => Ty::con("bool", vec![]),
                        "i64" | "u8" | "i32" | "usize" => Ty::con("int", vec![]),
                        _ => Ty::Hole,
                    },
                    PathArguments::AngleBracketed(a) => {
                        let mut v = vec![];
                        let mut num = None;
                        for x in &a.args {
                            match x {
                                GenericArgument::Type(t) => v.push(match t {
                                    Type::ImplTrait(_) => Ty::Hole,
                                    t => self.syn_ty(t)?,
                                }),
                                GenericArgument::Const(Expr::Lit(l)) => {
                                    num = Some(l.to_token_stream().to_string())
                                }
                                _ => return Ok(Ty::Hole),
                            }
                        }
                        match (&*name, num) {
                            ("T" | "X", Some(n)) => Ty::con(&format!("{name}{n}"), vec![]),
                            ("Result" | "Option", None) => Ty::con(&name, v),
                            _ => Ty::Hole,
                        }
                    }
                    _ => Ty::Hole,
                }
            }
            Type::Tuple(t) if t.elems.is_empty() => Ty::con("()", vec![]),
            Type::ImplTrait(_) => {
                return if self.check {
                    Err(Ctl::Ill("`impl Trait` not allowed in a let type".into()))
                } else {
                    Ok(Ty::Hole)
                };
            }
            _ => Ty::Hole,
        })
    }

    fn attrs<'a>(&self, attrs: &[Attribute]) -> std::result::Result<(), Ctl<'a>> {
        if self.check {
            for a in attrs {
                for n in ["never", "nested", "auto_enum", "rec"] {
                    if a.path().is_ident(n) {
                        return Err(Ctl::Ill(format!("leftover attribute #[{n}]")));
                    }
                }
            }
        }
        Ok(())
    }

    // ---- patterns

    fn bind<'a>(&mut self, p: &'a Pat, v: V<'a>, env: &Rc<Scope<'a>>) -> std::result::Result<bool, Ctl<'a>> {
        Ok(match p {
            Pat::Wild(_) => true,
            Pat::Ident(i) => {
                if let Some((_, sub)) = &i.subpat {
                    if !self.bind(sub, v.clone(), env)? {
                        return Ok(false);
                    }
                }
                if i.ident == "None" {
                    return Ok(matches!(&v, V::Con(n, _) if &**n == "None"));
                }
                env.vars.borrow_mut().push((i.ident.to_string(), Some(v), addr(i)));
                true
            }
            Pat::Lit(l) => match (&l.lit, &v) {
                (Lit::Int(i), V::Int(n)) => i.base10_parse::<i64>().ok() == Some(*n),
                (Lit::Bool(b), V::Bool(c)) => b.value == *c,
                (_, v) => return Err(Ctl::Ill(format!("literal pattern against `{}`", self.ty(v)))),
            },
            Pat::Or(o) => {
                for c in &o.cases {
                    if self.bind(c, v.clone(), env)? {
                        return Ok(true);
                    }
                }
                false
            }
            Pat::Paren(q) => self.bind(&q.pat, v, env)?,
            Pat::Reference(q) => self.bind(&q.pat, v, env)?,
            Pat::Type(q) => self.bind(&q.pat, v, env)?,
            Pat::Tuple(t) => {
                if t.elems.is_empty() {
                    if !matches!(v, V::Unit) {
                        return Err(Ctl::Ill(format!("unit pattern against `{}`", self.ty(&v))));
                    }
                    return Ok(true);
                }
                match v {
                    V::Con(n, a) if &*n == "tuple" && a.len() == t.elems.len() => {
                        for (q, w) in t.elems.iter().zip(a) {
                            if !self.bind(q, w, env)? {
                                return Ok(false);
                            }
                        }
                        true
                    }
                    _ => unsup!("tuple pattern"),
                }
            }
            Pat::Path(q) => match std_ctor(&q.path).as_deref() {
                Some("None") => matches!(&v, V::Con(n, _) if &**n == "None"),
                _ => unsup!("path pattern"),
            },
            Pat::TupleStruct(q) => match std_ctor(&q.path).as_deref() {
                Some(c @ ("Ok" | "Err" | "Some")) => {
                    if q.elems.len() != 1 {
                        unsup!("pattern arity");
                    }
                    match v {
                        V::Con(n, mut a) if &*n == c => {
                            let w = a.pop().unwrap();
                            self.bind(&q.elems[0], w, env)?
                        }
                        V::Con(n, _) if ["Ok", "Err", "Some", "None"].contains(&&*n) => {
                            if self.check {
                                let fam = |s: &str| s == "Ok" || s == "Err";
                                if fam(&n) != fam(c) {
                                    return Err(Ctl::Ill("Option/Result pattern mismatch".into()));
                                }
                            }
                            false
                        }
                        v => return Err(Ctl::Ill(format!("pattern `{c}(..)` against `{}`", self.ty(&v)))),
                    }
                }
                _ => {
                    let segs: Vec<String> = q.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 {
                        if let Some(e) = env.find_enum(&segs[segs.len() - 2]) {
                            match v {
                                V::Enum { addr: a, variant, val, .. } if a == addr(e) => {
                                    let idx = e.variants.iter().position(|x| x.ident == segs[segs.len() - 1]);
                                    if idx != Some(variant) {
                                        return Ok(false);
                                    }
                                    return self.bind(&q.elems[0], *val, env);
                                }
                                v => return Err(Ctl::Ill(format!("enum pattern against `{}`", self.ty(&v)))),
                            }
                        }
                    }
                    unsup!("tuple struct pattern")
                }
            },
            _ => unsup!("pattern"),
        })
    }

    // ---- expressions

    fn cond<'a>(&mut self, e: &'a Expr, env: &Rc<Scope<'a>>) -> std::result::Result<Option<Rc<Scope<'a>>>, Ctl<'a>> {
        match e {
            Expr::Let(l) => {
                let v = self.expr(&l.expr, env)?;
                let new = Scope::child(env);
                Ok(if self.bind(&l.pat, v, &new)? { Some(new) } else { None })
            }
            e => match self.expr(e, env)? {
                V::Bool(true) => Ok(Some(env.clone())),
                V::Bool(false) => Ok(None),
                v => Err(Ctl::Ill(format!("condition of type `{}`", self.ty(&v)))),
            },
        }
    }

    fn looping<'a>(
        &mut self,
        lbl: &Option<Label>,
        r: R<'a>,
    ) -> std::result::Result<Option<V<'a>>, Ctl<'a>> {
        // Ok(None): go on looping; Ok(Some(v)): leave with v
        match r {
            Ok(v) => {
                self.expect(&Ty::con("()", vec![]), "loop body", v)?;
                Ok(None)
            }
            Err(Ctl::Break(l, v)) if l.is_none() || l == label(lbl) => Ok(Some(v)),
            Err(Ctl::Continue(l)) if l.is_none() || l == label(lbl) => Ok(None),
            Err(c) => Err(c),
        }
    }

    pub fn expr<'a>(&mut self, e: &'a Expr, env: &Rc<Scope<'a>>) -> R<'a> {
        self.step()?;
        match e {
            Expr::Block(b) => {
                self.attrs(&b.attrs)?;
                let r = self.block(&b.block, env);
                match (&b.label, r) {
                    (Some(l), Err(Ctl::Break(Some(x), v))) if l.name.ident == x => {
                        self.join((addr(b), 1), "labeled block", v)
                    }
                    (Some(_), Ok(v)) => self.join((addr(b), 1), "labeled block", v),
                    (_, r) => r,
                }
            }
            Expr::Unsafe(b) => {
                self.attrs(&b.attrs)?;
                self.block(&b.block, env)
            }
            Expr::Const(b) => self.block(&b.block, env),
            Expr::Paren(p) => {
                self.attrs(&p.attrs)?;
                self.expr(&p.expr, env)
            }
            Expr::Group(p) => self.expr(&p.expr, env),
            Expr::If(i) => {
                self.attrs(&i.attrs)?;
                let v = match self.cond(&i.cond, env)? {
                    Some(env) => self.block(&i.then_branch, &env)?,
                    None => match &i.else_branch {
                        Some((_, e)) => self.expr(e, env)?,
                        None => V::Unit,
                    },
                };
                let v = if i.else_branch.is_none() {
                    self.expect(&Ty::con("()", vec![]), "if without else", v)?
                } else {
                    v
                };
                self.join((addr(i), 0), "if/else", v)
            }
            Expr::Match(m) => {
                self.attrs(&m.attrs)?;
                let s = self.expr(&m.expr, env)?;
                for arm in &m.arms {
                    self.attrs(&arm.attrs)?;
                    let new = Scope::child(env);
                    if !self.bind(&arm.pat, s.clone(), &new)? {
                        continue;
                    }
                    if let Some((_, g)) = &arm.guard {
                        if self.cond(g, &new)?.is_none() {
                            continue;
                        }
                    }
                    let v = self.expr(&arm.body, &new)?;
                    return self.join((addr(m), 0), "match", v);
                }
                Err(Ctl::Ill("no match arm applies".into()))
            }
            Expr::Loop(l) => {
                self.attrs(&l.attrs)?;
                loop {
                    self.step()?;
                    let r = self.block(&l.body, env);
                    if let Some(v) = self.looping(&l.label, r)? {
                        return self.join((addr(l), 0), "loop", v);
                    }
                }
            }
            Expr::While(l) => {
                self.attrs(&l.attrs)?;
                loop {
                    self.step()?;
                    let c = match self.cond(&l.cond, env) {
                        Err(Ctl::Break(x, v)) if x.is_some() && x == label(&l.label) => {
                            return self.expect(&Ty::con("()", vec![]), "while break", v);
                        }
                        Err(Ctl::Continue(x)) if x.is_some() && x == label(&l.label) => continue,
                        c => c?,
                    };
                    let Some(env) = c else { return Ok(V::Unit) };
                    let r = self.block(&l.body, &env);
                    if let Some(v) = self.looping(&l.label, r)? {
                        return self.expect(&Ty::con("()", vec![]), "while break", v);
                    }
                }
            }
            Expr::ForLoop(l) => {
                self.attrs(&l.attrs)?;
                let mut n = match self.expr(&l.expr, env)? {
                    V::Iter(n) => n,
                    v => unsup!("iterating over {}", self.ty(&v)),
                };
                while n > 0 {
                    n -= 1;
                    self.step()?;
                    let new = Scope::child(env);
                    if !self.bind(&l.pat, V::Int(n), &new)? {
                        unsup!("for pattern");
                    }
                    let r = self.block(&l.body, &new);
                    if let Some(v) = self.looping(&l.label, r)? {
                        return self.expect(&Ty::con("()", vec![]), "for break", v);
                    }
                }
                Ok(V::Unit)
            }
            Expr::Break(b) => {
                self.attrs(&b.attrs)?;
                let v = match &b.expr {
                    Some(e) => self.expr(e, env)?,
                    None => V::Unit,
                };
                Err(Ctl::Break(lifetime(&b.label), v))
            }
            Expr::Continue(c) => Err(Ctl::Continue(lifetime(&c.label))),
            Expr::Return(r) => {
                self.attrs(&r.attrs)?;
                let v = match &r.expr {
                    Some(e) => self.expr(e, env)?,
                    None => V::Unit,
                };
                Err(Ctl::Return(v))
            }
            Expr::Try(t) => {
                self.attrs(&t.attrs)?;
                match self.expr(&t.expr, env)? {
                    V::Con(n, mut a) if &*n == "Ok" || &*n == "Some" => Ok(a.pop().unwrap()),
                    V::Con(n, a) if &*n == "Err" || &*n == "None" => Err(Ctl::Return(V::Con(n, a))),
                    v => Err(Ctl::Ill(format!("`?` on `{}`", self.ty(&v)))),
                }
            }
            Expr::Closure(c) => {
                self.attrs(&c.attrs)?;
                Ok(V::Clo(Rc::new(Clo { expr: c, env: env.clone() })))
            }
            Expr::Async(a) => {
                self.attrs(&a.attrs)?;
                Ok(V::Fut(Rc::new((&a.block, addr(a), env.clone()))))
            }
            Expr::Await(a) => {
                let v = self.expr(&a.base, env)?;
                self.run_fut(v)
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => Ok(V::Int(i.base10_parse().unwrap_or(0))),
                Lit::Bool(b) => Ok(V::Bool(b.value)),
                Lit::Str(s) => Ok(V::Con(format!("str:{}", s.value()).into(), vec![])),
                _ => unsup!("literal"),
            },
            Expr::Tuple(t) => {
                self.attrs(&t.attrs)?;
                if t.elems.is_empty() {
                    return Ok(V::Unit);
                }
                let mut v = vec![];
                for e in &t.elems {
                    v.push(self.expr(e, env)?);
                }
                Ok(V::Con("tuple".into(), v))
            }
            Expr::Array(t) => {
                let mut v = vec![];
                for e in &t.elems {
                    let x = self.expr(e, env)?;
                    v.push(self.join((addr(t), 0), "array element", x)?);
                }
                Ok(V::Con("array".into(), v))
            }
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    v.push(self.expr(&f.expr, env)?);
                }
                Ok(V::Con(s.path.to_token_stream().to_string().into(), v))
            }
            Expr::Reference(r) => self.expr(&r.expr, env),
            Expr::Cast(c) => self.expr(&c.expr, env),
            Expr::Field(f) => match (self.expr(&f.base, env)?, &f.member) {
                (V::Con(_, a), Member::Unnamed(i)) => Ok(a[i.index as usize].clone()),
                (V::Con(_, mut a), Member::Named(_)) if a.len() == 1 => Ok(a.pop().unwrap()),
                _ => unsup!("field"),
            },
            Expr::Unary(u) => match (&u.op, self.expr(&u.expr, env)?) {
                (UnOp::Not(_), V::Bool(b)) => Ok(V::Bool(!b)),
                (UnOp::Deref(_), v) => Ok(v),
                (UnOp::Neg(_), V::Int(i)) => Ok(V::Int(-i)),
                _ => unsup!("unary"),
            },
            Expr::Binary(b) => {
                let l = self.expr(&b.left, env)?;
                match (&b.op, l) {
                    (BinOp::And(_), V::Bool(false)) => Ok(V::Bool(false)),
                    (BinOp::Or(_), V::Bool(true)) => Ok(V::Bool(true)),
                    (BinOp::And(_) | BinOp::Or(_), V::Bool(_)) => match self.expr(&b.right, env)? {
                        V::Bool(b) => Ok(V::Bool(b)),
                        v => Err(Ctl::Ill(format!("bool operand of type `{}`", self.ty(&v)))),
                    },
                    (op, V::Int(x)) => match (op, self.expr(&b.right, env)?) {
                        (BinOp::Eq(_), V::Int(y)) => Ok(V::Bool(x == y)),
                        (BinOp::Ne(_), V::Int(y)) => Ok(V::Bool(x != y)),
                        (BinOp::Lt(_), V::Int(y)) => Ok(V::Bool(x < y)),
                        (BinOp::Add(_), V::Int(y)) => Ok(V::Int(x + y)),
                        (BinOp::Sub(_), V::Int(y)) => Ok(V::Int(x - y)),
                        _ => unsup!("int operator"),
                    },
                    _ => unsup!("operator"),
                }
            }
            Expr::Range(r) => {
                if let Some(e) = &r.start {
                    self.expr(e, env)?;
                }
                if let Some(e) = &r.end {
                    self.expr(e, env)?;
                }
                Ok(V::Con("range".into(), vec![]))
            }
            Expr::Index(i) => {
                let b = self.expr(&i.expr, env)?;
                match (b, self.expr(&i.index, env)?) {
                    (V::Con(_, a), V::Int(i)) if (i as usize) < a.len() => Ok(a[i as usize].clone()),
                    _ => unsup!("index"),
                }
            }
            Expr::Assign(a) => {
                self.attrs(&a.attrs)?;
                let v = self.expr(&a.right, env)?;
                match &*a.left {
                    Expr::Path(p) => {
                        let n = p.path.to_token_stream().to_string();
                        match env.set(&n, v.clone()) {
                            Some(site) => {
                                self.join((site, 2), "assignment", v)?;
                            }
                            None => return Err(Ctl::Ill(format!("unknown variable {n}"))),
                        }
                        Ok(V::Unit)
                    }
                    Expr::Infer(_) => Ok(V::Unit),
                    _ => unsup!("assignment target"),
                }
            }
            Expr::Path(p) => {
                self.attrs(&p.attrs)?;
                let s = p.path.to_token_stream().to_string();
                if let Some(v) = env.get(&s) {
                    return v.ok_or_else(|| Ctl::Ill(format!("use of uninitialised {s}")));
                }
                if std_ctor(&p.path).as_deref() == Some("None") {
                    return Ok(V::Con("None".into(), vec![]));
                }
                if s.starts_with("fns :: ") && s.ends_with(":: None") {
                    return Ok(V::Con("Some".into(), vec![V::Con("T904".into(), vec![])]));
                }
                unsup!("path `{s}`")
            }
            Expr::Macro(m) => {
                self.attrs(&m.attrs)?;
                self.mac(&m.mac)
            }
            Expr::Call(c) => {
                self.attrs(&c.attrs)?;
                self.call(c, env)
            }
            Expr::MethodCall(m) => {
                self.attrs(&m.attrs)?;
                let r = self.expr(&m.receiver, env)?;
                let mut args = vec![];
                for a in &m.args {
                    args.push(self.expr(a, env)?);
                }
                match &*m.method.to_string() {
                    "id" => {
                        self.log(format!("id{}({r})", nums(&args)));
                        Ok(r)
                    }
                    "m" => {
                        self.log(format!("m{}({r})", nums(&args)));
                        Ok(V::Con(format!("M{}", nums(&args)).into(), vec![r]))
                    }
                    "take" => {
                        self.log(format!("take{}({r})", nums(&args[1..])));
                        Ok(r)
                    }
                    "go" => match r {
                        V::Clo(c) => {
                            self.log("go".into());
                            self.call_clo(&c, args)
                        }
                        _ => unsup!("go on non-closure"),
                    },
                    n => unsup!("method {n}"),
                }
            }
            e => unsup!("expression {}", e.to_token_stream()),
        }
    }

    fn mac<'a>(&mut self, m: &Macro) -> R<'a> {
        let s = m.path.to_token_stream().to_string().replace(' ', "");
        let s = s.trim_start_matches("::");
        match s.strip_prefix("std::").or(s.strip_prefix("core::")).unwrap_or(s) {
            "panic" | "unreachable" | "todo" | "unimplemented" | "die" => Err(Ctl::Panic),
            "compile_error" => Err(Ctl::Ill(format!("compile_error: {}", m.tokens))),
            "log" => {
                self.log(format!("ev{}", m.tokens));
                Ok(V::Unit)
            }
            "foreign" => Ok(V::Con(format!("foreign{}", m.tokens).into(), vec![])),
            s if self.check && self.must_not_remain.contains(&s) => {
                Err(Ctl::Ill(format!("marker macro `{s}!` left in the output")))
            }
            s => unsup!("macro {s}"),
        }
    }

    pub fn run_fut<'a>(&mut self, v: V<'a>) -> R<'a> {
        match v {
            V::Fut(f) => {
                let r = match self.block(f.0, &f.2) {
                    Err(Ctl::Return(v)) => Ok(v),
                    Err(Ctl::Break(..) | Ctl::Continue(_)) => {
                        Err(Ctl::Ill("break out of an async block".into()))
                    }
                    r => r,
                }?;
                self.join((f.1, 3), "async block result", r)
            }
            v => unsup!("awaiting {}", self.ty(&v)),
        }
    }

    pub fn call_clo<'a>(&mut self, c: &Rc<Clo<'a>>, args: Vec<V<'a>>) -> R<'a> {
        let env = Scope::child(&c.env);
        if c.expr.inputs.len() != args.len() {
            unsup!("closure arity");
        }
        for (p, a) in c.expr.inputs.iter().zip(args) {
            self.bind(p, a, &env)?;
        }
        let want = match &c.expr.output {
            ReturnType::Type(_, t) => self.syn_ty(t)?,
            ReturnType::Default => Ty::Hole,
        };
        let r = match self.expr(&c.expr.body, &env) {
            Err(Ctl::Return(v)) => Ok(v),
            Err(Ctl::Break(..) | Ctl::Continue(_)) => Err(Ctl::Ill("break out of a closure".into())),
            r => r,
        }?;
        let r = self.join((addr(c.expr), 3), "closure result", r)?;
        let r = self.expect(&want, "closure result type", r)?;
        if c.expr.asyncness.is_some() {
            unsup!("async closure");
        }
        Ok(r)
    }

    pub fn call_fn<'a>(&mut self, f: &'a ItemFn, args: Vec<V<'a>>, env: &Rc<Scope<'a>>) -> R<'a> {
        let env = Scope::child(env);
        let mut it = args.into_iter();
        for i in &f.sig.inputs {
            match i {
                FnArg::Typed(p) => {
                    let Some(v) = it.next() else { unsup!("fn arity") };
                    self.bind(&p.pat, v, &env)?;
                }
                FnArg::Receiver(_) => {}
            }
        }
        let want = match &f.sig.output {
            ReturnType::Type(_, t) if matches!(**t, Type::ImplTrait(_)) => Ty::Hole,
            ReturnType::Type(_, t) => self.syn_ty(t)?,
            ReturnType::Default => Ty::con("()", vec![]),
        };
        let r = match self.block(&f.block, &env) {
            Err(Ctl::Return(v)) => Ok(v),
            Err(Ctl::Break(..) | Ctl::Continue(_)) => Err(Ctl::Ill("break out of a function".into())),
            r => r,
        }?;
        let r = self.join((addr(f), 3), "function result", r)?;
        self.expect(&want, "function result type", r)
    }

    fn call<'a>(&mut self, c: &'a ExprCall, env: &Rc<Scope<'a>>) -> R<'a> {
        // callee first (a closure expression or variable), then arguments, as rustc evaluates them
        let path = match &*c.func {
            Expr::Path(p) => &p.path,
            f => {
                let f = self.expr(f, env)?;
                let mut args = vec![];
                for a in &c.args {
                    args.push(self.expr(a, env)?);
                }
                return match f {
                    V::Clo(c) => self.call_clo(&c, args),
                    _ => unsup!("callee"),
                };
            }
        };
        let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = &path.segments.last().unwrap();
        let name = last.ident.to_string();
        let var = if segs.len() == 1 { env.get(&name).flatten() } else { None };
        let mut args = vec![];
        for a in &c.args {
            args.push(self.expr(a, env)?);
        }
        if let Some(f) = var {
            return match f {
                V::Clo(c) => self.call_clo(&c, args),
                _ => unsup!("callee variable"),
            };
        }
        if segs.len() >= 2 {
            if let Some(e) = env.find_enum(&segs[segs.len() - 2]) {
                let Some(variant) = e.variants.iter().position(|v| v.ident == name) else {
                    return Err(Ctl::Ill(format!("no variant {name}")));
                };
                if args.len() != 1 {
                    return Err(Ctl::Ill("variant constructor arity".into()));
                }
                let val = args.pop().unwrap();
                if self.check {
                    let t = self.ty(&val);
                    let me = format!("{}@{:x}", e.ident, addr(e));
                    if t.mentions(&me) {
                        return Err(Ctl::Ill(format!("recursive enum type: {me}::{name}({t})")));
                    }
                    let key = (addr(e), variant);
                    let n = match self.sites.payload.get(&key) {
                        None => t,
                        Some(o) => match unify(o, &t) {
                            Some(n) => n,
                            None => {
                                return Err(Ctl::Ill(format!(
                                    "variant {name} used for two types `{o}` and `{t}`"
                                )));
                            }
                        },
                    };
                    self.sites.payload.insert(key, n);
                }
                return Ok(V::Enum {
                    name: e.ident.to_string().into(),
                    addr: addr(e),
                    variant,
                    val: Box::new(val),
                });
            }
        }
        if segs[0] == "fns" && name == "Err" && args.len() == 1 {
            return Ok(V::Con("Ok".into(), args));
        }
        if let Some(ctor) = std_ctor(path) {
            if args.len() == 1 {
                return Ok(V::Con((*ctor).into(), args));
            }
        }
        if segs.len() == 1 {
            if let Some(f) = env.find_fn(&name) {
                let mut root = env.clone();
                // function items do not capture locals
                while let Some(p) = root.parent.clone() {
                    if root.items.borrow().iter().any(|i| matches!(i, Item::Fn(g) if std::ptr::eq(g, f))) {
                        break;
                    }
                    root = p;
                }
                let clean = Rc::new(Scope {
                    vars: Default::default(),
                    items: RefCell::new(root.items.borrow().clone()),
                    parent: None,
                });
                return self.call_fn(f, args, &clean);
            }
        }
        let tf = match &last.arguments {
            PathArguments::AngleBracketed(a) => {
                a.args.iter().map(|x| x.to_token_stream().to_string()).collect::<Vec<_>>().join(",")
            }
            _ => String::new(),
        };
        match &*name {
            "ev" => {
                self.log(format!("ev{}", nums(&args)));
                Ok(V::Unit)
            }
            "b" => {
                let c = self.choose(2)?;
                self.log(format!("b{}={c}", nums(&args)));
                Ok(V::Bool(c == 0))
            }
            "s2" | "s3" => {
                let c = self.choose(if name == "s2" { 2 } else { 3 })?;
                self.log(format!("{name}_{}={c}", nums(&args)));
                Ok(V::Int(c as i64))
            }
            "t" => {
                self.log(format!("t{tf}"));
                Ok(V::Con(format!("T{tf}").into(), vec![]))
            }
            "r" => {
                let c = self.choose(2)?;
                self.log(format!("r{tf}={c}"));
                Ok(if c == 0 {
                    V::Con("Ok".into(), vec![V::Con(format!("X{tf}").into(), vec![])])
                } else {
                    V::Con("Err".into(), vec![V::Con(format!("T{tf}").into(), vec![])])
                })
            }
            "rr" => {
                // Result<Result<X, T>, T'>
                let c = self.choose(3)?;
                self.log(format!("rr{tf}={c}"));
                let (a, b) = tf.split_once(',').unwrap_or((&tf, ""));
                let (a, b) = (a.trim(), b.trim());
                let x = |n: &str, v| V::Con(n.into(), vec![v]);
                Ok(match c {
                    0 => x("Ok", x("Ok", V::Con(format!("X{a}").into(), vec![]))),
                    1 => x("Ok", x("Err", V::Con(format!("T{a}").into(), vec![]))),
                    _ => x("Err", V::Con(format!("T{b}").into(), vec![])),
                })
            }
            "o" => {
                let c = self.choose(2)?;
                self.log(format!("o{tf}={c}"));
                Ok(if c == 0 {
                    V::Con("Some".into(), vec![V::Con(format!("T{tf}").into(), vec![])])
                } else {
                    V::Con("None".into(), vec![])
                })
            }
            "it" => {
                let c = self.choose(2)?;
                self.log(format!("it{}={c}", nums(&args)));
                Ok(V::Iter(1 - c as i64))
            }
            "sink" => {
                self.log(format!("sink({})", args[0]));
                Ok(V::Unit)
            }
            "use_" => {
                self.log(format!("use{tf}({})", args[0]));
                let v = args.pop().unwrap();
                self.expect(&Ty::con(&format!("T{tf}"), vec![]), "use_ argument", v)?;
                Ok(V::Unit)
            }
            "use_x" => {
                self.log(format!("usex{tf}({})", args[0]));
                let v = args.pop().unwrap();
                self.expect(&Ty::con(&format!("X{tf}"), vec![]), "use_x argument", v)?;
                Ok(V::Unit)
            }
            "drop" => Ok(V::Unit),
            "block_on" => {
                let v = args.pop().unwrap();
                self.run_fut(v)
            }
            n => unsup!("function {n}"),
        }
    }
}

fn nums(args: &[V<'_>]) -> String {
    args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join("_")
}

/// `Ok`, `Err`, `Some`, `None`, possibly path-qualified
fn std_ctor(p: &Path) -> Option<String> {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let last = segs.last()?.clone();
    let full: &[&str] = match &*last {
        "Ok" | "Err" => &["result", "Result"],
        "Some" | "None" => &["option", "Option"],
        _ => return None,
    };
    let pre = &segs[..segs.len() - 1];
    let ok = match pre {
        [] => true,
        [a] => a == full[1],
        [a, b] => a == full[0] && b == full[1],
        [c, a, b] => (c == "core" || c == "std") && a == full[0] && b == full[1],
        _ => false,
    };
    ok.then_some(last)
}

pub struct Run {
    pub taken: Vec<(usize, usize)>,
    pub trace: Vec<String>,
    pub outcome: std::result::Result<Outcome, (bool, String)>, // Err((unsupported?, msg))
}

/// Run function `main_` of a file-like block of items once under a choice prefix.
pub fn run_once(
    items: &[Item],
    sites: &mut Sites,
    check: bool,
    prefix: &[usize],
    max_choices: usize,
    must_not_remain: &[&str],
) -> Run {
    let mut it = Interp {
        check,
        sites,
        prefix: prefix.to_vec(),
        taken: vec![],
        trace: vec![],
        max_choices,
        steps: 0,
        must_not_remain,
    };
    let root = Rc::new(Scope { vars: Default::default(), items: RefCell::new(items.iter().collect()), parent: None });
    let f = root.find_fn("main_").expect("main_");
    if check {
        for i in items {
            if let Item::Enum(e) = i {
                it.sites.enums.insert(addr(e), (e.ident.to_string(), e.variants.len()));
            }
        }
    }
    let r = it.call_fn(f, vec![], &root);
    let outcome = match r {
        Ok(v) => Ok(Outcome::Value(v.to_string())),
        Err(Ctl::Panic) => Ok(Outcome::Panic),
        Err(Ctl::Horizon) => Ok(Outcome::Horizon),
        Err(Ctl::Ill(s)) => Err((false, s)),
        Err(Ctl::Unsupported(s)) => Err((true, s)),
        Err(Ctl::Return(_)) => Err((false, "stray return".into())),
        Err(Ctl::Break(..) | Ctl::Continue(_)) => Err((false, "stray break/continue".into())),
    };
    let (taken, trace) = (std::mem::take(&mut it.taken), std::mem::take(&mut it.trace));
    drop(it);
    Run { taken, trace, outcome }
}
