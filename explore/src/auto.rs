//! Engine A: for one generated program, run the real `auto_enum` on it in-process and compare the
//! expansion with the un-annotated program on every execution (all answers of the environment
//! functions) up to a choice horizon.

use std::panic::{catch_unwind, AssertUnwindSafe};

use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::{visit::Visit, visit_mut::VisitMut, *};

use crate::{
    gen::{Frame, Program},
    interp::{run_once, Outcome, Sites},
};

#[derive(Default, Clone)]
pub struct Stats {
    pub programs: u64,
    pub executions: u64,
    pub transitions: u64,
    pub rejected: u64,
    pub unsupported: u64,
    pub variants: u64,
    pub horizon: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.programs += o.programs;
        self.executions += o.executions;
        self.transitions += o.transitions;
        self.rejected += o.rejected;
        self.unsupported += o.unsupported;
        self.variants += o.variants;
        self.horizon += o.horizon;
    }
}

pub enum Verdict {
    Ok,
    Unsupported(String),
    Violation(String),
}

// ---- erasing annotations

struct Erase<'a> {
    markers: &'a [String],
}

fn is_mine(a: &Attribute) -> bool {
    ["auto_enum", "never", "nested"].iter().any(|n| a.path().is_ident(n))
}

impl Erase<'_> {
    fn marker(&self, m: &Macro) -> Option<Expr> {
        let i = m.path.get_ident()?;
        if self.markers.iter().any(|x| i == x) {
            m.parse_body::<Expr>().ok()
        } else {
            None
        }
    }
}

impl VisitMut for Erase<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|a| !is_mine(a));
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.marker(&m.mac) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = self.marker(&m.mac) {
                *s = Stmt::Expr(x, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// The macros of module `other` yield their argument after an event.
struct Other;
impl Other {
    fn body(m: &Macro) -> Option<Expr> {
        if m.path.segments.len() == 2 && m.path.segments[0].ident == "other" {
            let e = m.parse_body::<Expr>().ok()?;
            Some(parse_quote!({ ev(4000); #e }))
        } else {
            None
        }
    }
}
impl VisitMut for Other {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = Self::body(&m.mac) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = Self::body(&m.mac) {
                *s = Stmt::Expr(x, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// ---- expanding annotations the way rustc does (outermost first)

pub fn attr_args(a: &Attribute) -> TokenStream {
    match &a.meta {
        Meta::Path(_) => TokenStream::new(),
        Meta::List(l) => l.tokens.clone(),
        Meta::NameValue(n) => {
            let v = &n.value;
            quote::quote!(= #v)
        }
    }
}

#[derive(Debug)]
pub enum Exp {
    Panic(String),
    CompileError(String),
    /// output is not syntactically valid
    Syntax(String),
}

pub fn compile_error_in(ts: &TokenStream) -> Option<String> {
    let mut prev: Option<String> = None;
    for t in ts.clone() {
        match &t {
            proc_macro2::TokenTree::Ident(i) => prev = Some(i.to_string()),
            proc_macro2::TokenTree::Punct(p) if p.as_char() == '!' => continue,
            proc_macro2::TokenTree::Group(g) => {
                if prev.as_deref() == Some("compile_error") {
                    return Some(g.stream().to_string());
                }
                if let Some(x) = compile_error_in(&g.stream()) {
                    return Some(x);
                }
                prev = None;
            }
            _ => prev = None,
        }
    }
    None
}

pub fn call_auto_enum(args: TokenStream, input: TokenStream) -> std::result::Result<TokenStream, Exp> {
    let r = catch_unwind(AssertUnwindSafe(|| aelib::auto_enum(args, input)));
    match r {
        Ok(ts) => match compile_error_in(&ts) {
            Some(m) => Err(Exp::CompileError(m)),
            None => Ok(ts),
        },
        Err(p) => Err(Exp::Panic(panic_msg(&p))),
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

fn take_auto(attrs: &mut Vec<Attribute>) -> Option<Attribute> {
    let i = attrs.iter().position(|a| a.path().is_ident("auto_enum"))?;
    Some(attrs.remove(i))
}

fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::If(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs,
        Expr::Block(x) => &mut x.attrs,
        Expr::Unsafe(x) => &mut x.attrs,
        Expr::Paren(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::Closure(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::Path(x) => &mut x.attrs,
        Expr::Lit(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        Expr::Tuple(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Break(x) => &mut x.attrs,
        Expr::Async(x) => &mut x.attrs,
        Expr::Try(x) => &mut x.attrs,
        Expr::Assign(x) => &mut x.attrs,
        _ => return None,
    })
}

/// attribute lists on the left spine: `#[a] x.m()`, `#[a] x = y`: syn attaches the attribute to
/// the leftmost operand, rustc to the whole statement/expression.
fn take_auto_spine(e: &mut Expr) -> Option<Attribute> {
    if let Some(a) = expr_attrs(e) {
        if let Some(a) = take_auto(a) {
            return Some(a);
        }
    }
    match e {
        Expr::MethodCall(m) => take_auto_spine(&mut m.receiver),
        Expr::Call(m) => take_auto_spine(&mut m.func),
        Expr::Assign(m) => take_auto_spine(&mut m.left),
        Expr::Field(m) => take_auto_spine(&mut m.base),
        Expr::Try(m) => take_auto_spine(&mut m.expr),
        _ => None,
    }
}

#[derive(Default)]
pub struct Expander {
    pub err: Option<Exp>,
    pub calls: usize,
    /// the first expansion that is not one item or statement of the kind that was annotated
    pub leak: Option<String>,
}

/// what an annotation may turn an item or statement into
fn kind(s: &Stmt) -> String {
    match s {
        Stmt::Local(l) => format!("let {}", l.pat.to_token_stream()),
        Stmt::Item(Item::Fn(f)) => format!("fn {}", f.sig.to_token_stream()),
        Stmt::Item(i) => format!("another item: {}", i.to_token_stream()),
        Stmt::Expr(..) | Stmt::Macro(_) => "an expression".into(),
    }
}

/// every expansion of an accepted program: `None`, or what leaked out of it
pub fn leak(p: &Program) -> Option<std::result::Result<usize, String>> {
    let mut out: File = parse_str(&p.src).ok()?;
    let names = |f: &File| f.items.iter().map(|i| kind(&Stmt::Item(i.clone()))).collect::<Vec<_>>();
    let before = names(&out);
    let mut ex = Expander::default();
    ex.visit_file_mut(&mut out);
    if ex.err.is_some() {
        return None;
    }
    if let Some(l) = ex.leak {
        return Some(Err(l));
    }
    // (the bodies of the other items are not compared)
    let keep = |v: Vec<String>| v.into_iter().filter(|s| s.starts_with("fn ")).collect::<Vec<_>>();
    if before.len() != out.items.len() || keep(before) != keep(names(&out)) {
        return Some(Err("items around the annotated one changed".into()));
    }
    Some(Ok(ex.calls))
}

impl Expander {
    fn call<T>(
        &mut self,
        a: &Attribute,
        input: TokenStream,
        parse: impl FnOnce(TokenStream) -> Result<T>,
    ) -> Option<T> {
        self.calls += 1;
        match call_auto_enum(attr_args(a), input) {
            Err(e) => {
                self.err.get_or_insert(e);
                None
            }
            Ok(ts) => match parse(ts.clone()) {
                Ok(x) => Some(x),
                Err(e) => {
                    self.err.get_or_insert(Exp::Syntax(format!("{e}: {ts}")));
                    None
                }
            },
        }
    }
}

fn parse_stmts(ts: TokenStream) -> Result<Vec<Stmt>> {
    parse::Parser::parse2(Block::parse_within, ts)
}

impl VisitMut for Expander {
    fn visit_file_mut(&mut self, f: &mut File) {
        let mut i = 0;
        while i < f.items.len() {
            if self.err.is_some() {
                return;
            }
            if let Item::Fn(x) = &mut f.items[i] {
                if let Some(a) = take_auto(&mut x.attrs) {
                    let ts = x.to_token_stream();
                    if let Some(out) = self.call(&a, ts, |t| parse2::<File>(t)) {
                        f.items.splice(i..=i, out.items);
                    }
                    continue;
                }
            }
            self.visit_item_mut(&mut f.items[i]);
            i += 1;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.err.is_some() {
                return;
            }
            let a = match &mut b.stmts[i] {
                Stmt::Local(l) => take_auto(&mut l.attrs),
                Stmt::Item(Item::Fn(f)) => take_auto(&mut f.attrs),
                Stmt::Expr(e, _) => take_auto_spine(e),
                _ => None,
            };
            if let Some(a) = a {
                let ts = b.stmts[i].to_token_stream();
                if let Some(out) = self.call(&a, ts, parse_stmts) {
                    let (want, got) = (kind(&b.stmts[i]), out.iter().map(kind).collect::<Vec<_>>());
                    if got != [want.clone()] {
                        self.leak.get_or_insert(format!("{want} became {got:?}"));
                    }
                    b.stmts.splice(i..=i, out);
                }
                continue;
            }
            self.visit_stmt_mut(&mut b.stmts[i]);
            i += 1;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() {
            return;
        }
        // statement-position expressions were already handled by visit_block_mut
        if let Some(a) = expr_attrs(e).and_then(take_auto) {
            let ts = e.to_token_stream();
            if let Some(out) = self.call(&a, ts, |t| parse2::<Expr>(t)) {
                *e = out;
                self.visit_expr_mut(e);
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---- static facts of the output

#[derive(Default)]
struct Enums<'a> {
    v: Vec<&'a ItemEnum>,
}
impl<'a> Visit<'a> for Enums<'a> {
    fn visit_item_enum(&mut self, e: &'a ItemEnum) {
        self.v.push(e);
    }
}

struct Leftover<'a> {
    markers: &'a [String],
    bad: Option<String>,
}
impl<'a> Visit<'a> for Leftover<'_> {
    fn visit_attribute(&mut self, a: &'a Attribute) {
        if is_mine(a) || a.path().is_ident("rec") {
            self.bad.get_or_insert(format!("attribute left in the output: {}", a.to_token_stream()));
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if let Some(i) = m.path.get_ident() {
            if self.markers.iter().any(|x| i == x) {
                self.bad.get_or_insert(format!("marker macro left in the output: {}", m.to_token_stream()));
            }
        }
    }
}

#[derive(Default)]
struct Sigs(Vec<String>);
impl<'a> Visit<'a> for Sigs {
    fn visit_item_fn(&mut self, f: &'a ItemFn) {
        let mut s = String::new();
        for a in &f.attrs {
            if !is_mine(a) {
                s.push_str(&a.to_token_stream().to_string());
            }
        }
        s.push_str(&f.vis.to_token_stream().to_string());
        s.push_str(&f.sig.to_token_stream().to_string());
        self.0.push(s);
        visit::visit_item_fn(self, f);
    }
}

/// (sorted trait list, variant count) of every annotation that must produce an enum
fn expected(frames: &[Frame]) -> Vec<(String, usize)> {
    let mut v: Vec<_> = frames
        .iter()
        .filter(|f| !f.args.is_empty() && f.wraps > 0)
        .map(|f| (f.args.clone(), f.wraps))
        .collect();
    v.sort();
    v
}

pub fn check_program(p: &Program, horizon: usize, st: &mut Stats) -> Verdict {
    st.programs += 1;
    let src: File = match parse_str(&p.src) {
        Ok(f) => f,
        Err(e) => return Verdict::Unsupported(format!("generator bug (parse): {e}")),
    };
    let mut out = src.clone();
    let mut ex = Expander::default();
    ex.visit_file_mut(&mut out);
    match ex.err {
        Some(Exp::Panic(m)) => return Verdict::Violation(format!("macro panicked: {m}")),
        Some(Exp::Syntax(m)) => {
            return Verdict::Violation(format!("macro output is not valid syntax: {m}"));
        }
        Some(Exp::CompileError(m)) => {
            return if p.reject {
                st.rejected += 1;
                Verdict::Ok
            } else {
                Verdict::Violation(format!("valid program rejected: {m}"))
            };
        }
        None => {}
    }
    if p.reject {
        return Verdict::Violation(
            "program with fewer than two wrapped values accepted".into(),
        );
    }

    let mut left = Leftover { markers: &p.markers, bad: None };
    left.visit_file(&out);
    if let Some(b) = left.bad {
        return Verdict::Violation(b);
    }
    let (mut s1, mut s2) = (Sigs::default(), Sigs::default());
    s1.visit_file(&src);
    s2.visit_file(&out);
    if s1.0 != s2.0 {
        return Verdict::Violation(format!("function signatures changed: {:?} vs {:?}", s1.0, s2.0));
    }

    let mut orig = src;
    Erase { markers: &p.markers }.visit_file_mut(&mut orig);

    let mut enums = Enums::default();
    enums.visit_file(&out);
    let mut have: Vec<(String, usize)> = enums
        .v
        .iter()
        .map(|e| {
            let args = e
                .attrs
                .iter()
                .find(|a| a.path().segments.last().is_some_and(|s| s.ident == "enum_derive"))
                .map(|a| attr_args(a).to_string().replace(' ', "").trim_end_matches(',').to_string())
                .unwrap_or_else(|| "?".into());
            (args, e.variants.len())
        })
        .collect();
    have.sort();
    let want = expected(&p.frames);
    if !have.iter().any(|x| x.0 == "?") && have != want
        || have.iter().map(|x| x.1).sum::<usize>() != want.iter().map(|x| x.1).sum::<usize>()
    {
        return Verdict::Violation(format!(
            "generated enums (traits, variants) are {have:?}, but the annotations wrap {want:?}"
        ));
    }
    st.variants += want.iter().map(|x| x.1 as u64).sum::<u64>();

    Other.visit_file_mut(&mut orig);
    Other.visit_file_mut(&mut out);

    // all executions
    let mut sites = Sites::default();
    let mut osites = Sites::default();
    let markers: Vec<&str> = p.markers.iter().map(|s| &**s).collect();
    let mut prefix: Vec<usize> = vec![];
    let mut any_horizon = false;
    loop {
        let a = run_once(&orig.items, &mut osites, false, &prefix, horizon, &[]);
        st.executions += 1;
        st.transitions += a.trace.len() as u64 + 1;
        let ra = match &a.outcome {
            Ok(Outcome::Value(s)) => s.clone(),
            Ok(Outcome::Panic) => "panic".into(),
            Ok(Outcome::Horizon) => {
                any_horizon = true;
                "horizon".into()
            }
            Err((_, m)) => {
                st.unsupported += 1;
                return Verdict::Unsupported(format!("original: {m}"));
            }
        };
        let path: Vec<usize> = a.taken.iter().map(|x| x.0).collect();
        let b = run_once(&out.items, &mut sites, true, &path, a.taken.len().max(1), &markers);
        let rb = match &b.outcome {
            Ok(Outcome::Value(s)) => s.clone(),
            Ok(Outcome::Panic) => "panic".into(),
            Ok(Outcome::Horizon) => "horizon".into(),
            Err((true, m)) => {
                st.unsupported += 1;
                return Verdict::Unsupported(format!("expansion: {m}"));
            }
            Err((false, m)) => {
                return Verdict::Violation(format!("expansion does not compile: {m} (path {path:?})"));
            }
        };
        // after an over-long original run the expansion stops at the same choice
        if a.trace != b.trace || ra != rb {
            return Verdict::Violation(format!(
                "behaviour differs on path {path:?}: without attribute [{}] => {ra}; expanded [{}] => {rb}",
                a.trace.join(" "),
                b.trace.join(" ")
            ));
        }
        // next choice vector
        let mut t = a.taken;
        loop {
            match t.pop() {
                None => break,
                Some((c, n)) if c + 1 < n => {
                    t.push((c + 1, n));
                    break;
                }
                _ => {}
            }
        }
        if t.is_empty() {
            break;
        }
        prefix = t.iter().map(|x| x.0).collect();
    }
    if any_horizon {
        st.horizon += 1;
    }

    // each enum's payload types must be known (every variant constructed) and non-recursive
    for (addr, (name, n)) in &sites.enums {
        for v in 0..*n {
            if !sites.payload.contains_key(&(*addr, v)) {
                return Verdict::Violation(format!(
                    "variant {v} of {name} is never constructed on any of the explored paths (its type cannot be inferred)"
                ));
            }
        }
    }
    // cycles through several enums
    for (addr, (name, n)) in &sites.enums {
        let mut seen = vec![*addr];
        let mut todo: Vec<usize> = vec![*addr];
        let me = format!("{name}@{addr:x}");
        while let Some(a) = todo.pop() {
            let n = if a == *addr { *n } else { sites.enums[&a].1 };
            for v in 0..n {
                if let Some(t) = sites.payload.get(&(a, v)) {
                    if t.mentions(&me) {
                        return Verdict::Violation(format!("recursive enum type {me}"));
                    }
                    for (b, (bn, _)) in &sites.enums {
                        if !seen.contains(b) && t.mentions(&format!("{bn}@{b:x}")) {
                            seen.push(*b);
                            todo.push(*b);
                        }
                    }
                }
            }
        }
    }
    Verdict::Ok
}

/// Every execution of the un-annotated program up to the horizon: (choices, outcome, trace).
/// `None` if some execution is cut off other than by the horizon of choices.
pub fn model_paths(p: &Program, horizon: usize) -> Option<Vec<(Vec<usize>, String, Vec<String>)>> {
    let mut orig: File = parse_str(&p.src).ok()?;
    Erase { markers: &p.markers }.visit_file_mut(&mut orig);
    Other.visit_file_mut(&mut orig);
    let mut sites = Sites::default();
    let mut prefix: Vec<usize> = vec![];
    let mut v = vec![];
    loop {
        let a = run_once(&orig.items, &mut sites, false, &prefix, horizon, &[]);
        let path: Vec<usize> = a.taken.iter().map(|x| x.0).collect();
        let out = match a.outcome {
            Ok(Outcome::Value(s)) => s,
            Ok(Outcome::Panic) => "panic".into(),
            Ok(Outcome::Horizon) if path.len() == horizon => "horizon".into(),
            _ => return None,
        };
        v.push((path, out, a.trace));
        let mut t = a.taken;
        loop {
            match t.pop() {
                None => return Some(v),
                Some((c, n)) if c + 1 < n => {
                    t.push((c + 1, n));
                    break;
                }
                _ => {}
            }
        }
        prefix = t.iter().map(|x| x.0).collect();
    }
}
