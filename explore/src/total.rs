//! C09: totality, determinism and rejection. Exhaustive universes of argument lists, inputs, single
//! token mutations and single defects, all through the real macros in process.
use std::{collections::BTreeSet, panic::{catch_unwind, AssertUnwindSafe}};

use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use syn::{parse::Parser, visit::Visit, *};

use crate::{
    auto::{attr_args, compile_error_in, panic_msg},
    chooser, gen,
    par::{fnv, par, Acc},
};

#[derive(Clone, Copy, PartialEq)]
enum Mac {
    Auto,
    Derive,
}

/// token streams cannot be shared between threads: parse each text once per thread
fn toks(s: &'static str) -> TokenStream {
    thread_local!(static C: std::cell::RefCell<std::collections::HashMap<&'static str, TokenStream>> = Default::default());
    C.with(|c| c.borrow_mut().entry(s).or_insert_with(|| s.parse().unwrap_or_else(|_| panic!("{s}"))).clone())
}

enum Got {
    Rejected(String),
    Accepted(TokenStream),
}

/// Runs the macro twice and judges what every input must satisfy.
fn total(mac: Mac, args: &TokenStream, input: &TokenStream, acc: &mut Acc) -> Option<Got> {
    let show = || format!("#[{}({args})] {input}", if mac == Mac::Auto { "auto_enum" } else { "enum_derive" });
    let call = || {
        let (a, i) = (args.clone(), input.clone());
        catch_unwind(AssertUnwindSafe(|| match mac {
            Mac::Auto => aelib::auto_enum(a, i),
            Mac::Derive => aelib::enum_derive(a, i),
        }))
    };
    acc.states += 1;
    acc.transitions += 1;
    let out = match call() {
        Err(p) => {
            acc.bad(show(), format!("macro panicked: {}", panic_msg(&p)));
            return None;
        }
        Ok(o) => o,
    };
    let s = out.to_string();
    match call() {
        Ok(o) if o.to_string() == s => {}
        _ => {
            acc.bad(show(), format!("two calls with the same input give different results; first: {s}"));
            return None;
        }
    }
    acc.digest = acc.digest.wrapping_add(fnv(&s));
    if let Some(m) = compile_error_in(&out) {
        acc.rejected += 1;
        // the error itself must be syntactically valid, or rustc reports something else
        if parse2::<File>(out).is_err() {
            acc.bad(show(), format!("the compile error is not valid Rust: {s}"));
        }
        return Some(Got::Rejected(m));
    }
    acc.accepted += 1;
    if Block::parse_within.parse2(out.clone()).is_err() && parse2::<Expr>(out.clone()).is_err() {
        acc.bad(show(), format!("output is neither valid Rust nor a compile error: {s}"));
        return None;
    }
    Some(Got::Accepted(out))
}

// ---- what an accepted expansion may look like

#[derive(Default)]
struct Scan {
    enums: Vec<usize>,
    left: Option<String>,
    markers: Vec<String>,
    inner: bool,
    stmt_macro: bool,
}
impl Scan {
    fn mac(&mut self, m: &Macro) {
        if let Some(i) = m.path.get_ident() {
            if self.markers.iter().any(|x| i == x) {
                self.left = Some(format!("{i}!"));
            }
        }
    }
}
impl<'a> Visit<'a> for Scan {
    fn visit_item(&mut self, i: &'a Item) {
        if let Item::Enum(e) = i {
            self.enums.push(e.variants.len());
        }
        // nested items are left alone
    }
    fn visit_attribute(&mut self, a: &'a Attribute) {
        for n in ["never", "nested", "auto_enum", "rec"] {
            if a.path().is_ident(n) {
                self.left = Some(format!("#[{n}]"));
                self.inner |= n == "auto_enum";
            }
        }
    }
    fn visit_expr_macro(&mut self, m: &'a ExprMacro) {
        self.mac(&m.mac);
        visit::visit_expr_macro(self, m);
    }
    fn visit_stmt_macro(&mut self, m: &'a StmtMacro) {
        self.stmt_macro = true;
        self.mac(&m.mac);
        visit::visit_stmt_macro(self, m);
    }
}

fn scan(ts: &TokenStream, markers: &[&str]) -> Scan {
    let mut s = Scan { markers: markers.iter().map(|x| x.to_string()).collect(), ..Default::default() };
    if let Ok(b) = Block::parse_within.parse2(ts.clone()) {
        // the annotated item itself is looked into, items inside it are not
        for st in &b {
            if let Stmt::Item(Item::Fn(f)) = st {
                visit::visit_item_fn(&mut s, f);
            } else {
                s.visit_stmt(st);
            }
        }
    } else if let Ok(e) = parse2::<Expr>(ts.clone()) {
        s.visit_expr(&e);
    }
    s
}

/// Uses without a documented meaning, which rustc reports when the annotation is kept: annotations of
/// the annotated item itself, twice the same annotation, markers inside markers.
fn odd(ts: &TokenStream) -> bool {
    struct V(bool);
    let count = |attrs: &[Attribute], n: &str| attrs.iter().filter(|a| a.path().is_ident(n)).count();
    const N: [&str; 4] = ["never", "nested", "auto_enum", "rec"];
    impl<'a> Visit<'a> for V {
        fn visit_macro(&mut self, m: &'a Macro) {
            if ["marker", "auto_enum", "never", "nested", "rec"].iter().any(|n| m.tokens.to_string().contains(n)) {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    let (attrs, node): (Vec<Attribute>, _) = if let Ok(s) = parse2::<Stmt>(ts.clone()) {
        v.visit_stmt(&s);
        let a = match &s {
            Stmt::Item(Item::Fn(f)) => f.attrs.clone(),
            Stmt::Local(l) => l.attrs.clone(),
            Stmt::Expr(Expr::Closure(c), _) => c.attrs.clone(),
            _ => vec![],
        };
        (a, s.to_token_stream())
    } else if let Ok(e) = parse2::<Expr>(ts.clone()) {
        v.visit_expr(&e);
        (if let Expr::Closure(c) = &e { c.attrs.clone() } else { vec![] }, e.to_token_stream())
    } else {
        return false;
    };
    if v.0 || N.iter().any(|n| count(&attrs, n) > 0) {
        return true;
    }
    // twice the same annotation, next to each other
    let s = node.to_string().replace(' ', "");
    N.iter().any(|n| {
        s.match_indices(&format!("#[{n}")).any(|(i, _)| {
            let rest = &s[i..];
            // attributes that follow directly
            let mut r = rest;
            let mut k = 0;
            while r.starts_with("#[") {
                let Some(e) = r.find(']') else { break };
                if r[2..].starts_with(n) {
                    k += 1;
                }
                r = &r[e + 1..];
            }
            k > 1
        })
    })
}

/// Accepted with traits to derive: two or more values are wrapped and no annotation is left over.
fn judged(args: &TokenStream, input: &TokenStream, out: &TokenStream, acc: &mut Acc) {
    let show = || format!("#[auto_enum({args})] {input}");
    let before = scan(input, &["marker"]);
    let item = parse2::<Stmt>(input.clone());
    match &item {
        Ok(Stmt::Item(Item::Fn(_))) => {}
        Ok(Stmt::Item(_)) => return acc.bad(show(), "an unsupported item is accepted"),
        Ok(Stmt::Local(l)) if l.init.is_none() && !args.is_empty() => return acc.bad(show(), "an uninitialised let is accepted"),
        Ok(_) => {}
        Err(_) if parse2::<Expr>(input.clone()).is_ok() => {}
        Err(_) => return acc.bad(show(), "neither a statement nor an expression, but accepted"),
    }
    if args.is_empty() {
        return;
    }
    // with a custom marker, `marker!` is any other macro
    let after = scan(out, if args.to_string().contains('=') { &[] } else { &["marker"] });
    if let Some(x) = after.left.filter(|_| !odd(input)) {
        return acc.bad(show(), format!("`{x}` is left in the expansion: {out}"));
    }
    if !before.inner && !after.enums.iter().any(|n| *n >= 2) {
        acc.bad(show(), format!("accepted with fewer than two wrapped values: {out}"));
    }
}

// ---- (a) argument lists

const ARG_TOKENS: &[&str] =
    &["Iterator", "fmt", "::", ",", "marker", "=", "m", "(x)", "<", ">", "!", "1", "\"s\"", "#", "'a", "crate", "[T]", "->", "_", "for"];

/// `Some(accept)` for the strings this recogniser decides (no generic arguments)
fn arg_spec(toks: &[&str], auto: bool) -> Option<bool> {
    if toks.iter().any(|t| ["<", ">", "(x)", "->"].contains(t)) {
        return None;
    }
    let ident = |t: &str| ["Iterator", "fmt", "marker", "m"].contains(&t) || t == "crate";
    let mut i = 0;
    let mut markers = 0;
    while i < toks.len() {
        if auto && toks[i] == "marker" && toks.get(i + 1) == Some(&"=") {
            match toks.get(i + 2) {
                Some(t) if ident(t) && *t != "crate" => {}
                _ => return Some(false),
            }
            markers += 1;
            i += 3;
        } else {
            if toks[i] == "::" {
                i += 1;
            }
            loop {
                match toks.get(i) {
                    Some(t) if ident(t) => i += 1,
                    _ => return Some(false),
                }
                if toks.get(i) == Some(&"::") {
                    i += 1;
                } else {
                    break;
                }
            }
        }
        match toks.get(i) {
            None => break,
            Some(&",") => i += 1,
            _ => return Some(false),
        }
    }
    Some(markers <= 1)
}

fn args_universe(len: u32, secs: u64) {
    let n = ARG_TOKENS.len() as u64;
    let inputs: [(Mac, &'static str); 4] = [
        (Mac::Auto, "fn f(c: bool) -> T { if c { 1 } else { \"2\" } }"),
        (Mac::Auto, "let x = match c { 0 => 1, _ => 2 };"),
        (Mac::Auto, "loop { if c { break 1 } break 2 }"),
        (Mac::Derive, "enum E<A, B> { A(A), B(B) }"),
    ];
    for l in 0..=len {
        let t0 = std::time::Instant::now();
        let name = format!("total: argument lists of {l} tokens");
        let (acc, complete) = par(&name, n.pow(l), secs, |mut i, acc, now| {
            let mut list = vec![];
            for _ in 0..l {
                list.push(ARG_TOKENS[(i % n) as usize]);
                i /= n;
            }
            // "# #": a lone `'a` next to something else still lexes
            let s = list.join(" ");
            now.set(&s);
            let Ok(args) = s.parse::<TokenStream>() else { return };
            for (m, text) in &inputs {
                let input = &toks(text);
                let spec = arg_spec(&list, *m == Mac::Auto);
                match total(*m, &args, input, acc) {
                    Some(Got::Accepted(_)) if spec == Some(false) => {
                        acc.bad(format!("#[..({s})] {input}"), "a malformed argument list is accepted")
                    }
                    Some(Got::Rejected(e)) if spec == Some(true) => {
                        // a path may still name something that cannot be derived
                        if !(*m == Mac::Derive && e.contains("Ident")) {
                            acc.bad(format!("#[..({s})] {input}"), format!("a well-formed argument list is rejected: {e}"))
                        }
                    }
                    Some(Got::Accepted(out)) if *m == Mac::Auto && !list.is_empty() => {
                        if !(list.contains(&"=") && spec == Some(true) && only_marker(&list)) {
                            judged(&args, input, &out, acc)
                        }
                    }
                    _ => {}
                }
            }
            if acc.samples.is_empty() && !list.is_empty() {
                acc.samples.push(format!("#[auto_enum({s})] fn f .."));
            }
        });
        println!("{}", acc.json(&name, complete, t0.elapsed().as_secs_f64()));
    }
}

/// `marker = m` alone derives nothing: the attribute then only marks a scope
fn only_marker(toks: &[&str]) -> bool {
    toks.len() <= 4 && toks[0] == "marker"
}

// ---- (b) inputs

const SYMS: &[&str] = &[
    "fn f() -> impl T", "fn f() -> Result<u8, impl T>", "fn f()", "{}", "{ 1 }", "{ 1; }", "{ if c { 1 } else { 2 } }", "{ marker!(1) }", "{ 0 => 1, _ => 2 }", "{ 0 => 1, #[never] _ => 2 }",
    "{ break 1; break 2; }", "{ return 1; 2 }", "{ a?; b? }", "{ #[auto_enum(A)] if c { 1 } else { 2 } }", "(1)", "()", "[1]", "let x", "=", ";", "if c", "if let 1 = c", "else", "match c", "loop", "while c",
    "for x in y", "break", "return", "?", "marker!", "#[never]", "#[nested]", "#[auto_enum(A)]", "#[auto_enum]", "#[allow(x)]", "||", "|x|", "async", "move", "unsafe", "'a", ":", ".m()", ".await", ",", "1", "a",
    "+", "!", "&", "..", "enum E { A(u8), B(u8) }", "struct S;", "mod m", "use a;", "const C: u8", "static", "impl T for U {}", "macro_rules! m", "pub", "as u8", "#![never]", "#[rec]", "#[never(1)]",
];

fn strings(mac: Mac, args: &[&'static str], syms: &'static [&'static str], len: u32, secs: u64) {
    let n = syms.len() as u64;
    let t0 = std::time::Instant::now();
    let name = format!("total: {} inputs of {len} symbols out of {n}", if mac == Mac::Auto { "auto_enum" } else { "enum_derive" });
    let (acc, complete) = par(&name, n.pow(len), secs, |i0, acc, now| {
        let mut i = i0;
        let mut input = TokenStream::new();
        let mut k = vec![];
        for _ in 0..len {
            k.push((i % n) as usize);
            input.extend(toks(syms[(i % n) as usize]));
            i /= n;
        }
        if i0 % 64 == 0 {
            now.set(&input.to_string());
        }
        for a in args {
            let a = &toks(a);
            match total(mac, a, &input, acc) {
                Some(Got::Accepted(out)) if mac == Mac::Auto => judged(a, &input, &out, acc),
                Some(Got::Accepted(out)) => {
                    if parse2::<ItemEnum>(input.clone()).is_err() {
                        acc.bad(format!("#[enum_derive({a})] {input}"), format!("not an enum, but accepted: {out}"));
                    }
                }
                _ => {}
            }
        }
        if acc.samples.is_empty() && acc.accepted > 0 {
            acc.samples.push(input.to_string());
        }
    });
    println!("{}", acc.json(&name, complete, t0.elapsed().as_secs_f64()));
}

/// the symbols of the depth-4 quick exploration
const CORE: &[&str] = &[
    "fn f() -> impl T", "{}", "{ 1 }", "{ if c { 1 } else { 2 } }", "{ marker!(1) }", "{ 0 => 1, _ => 2 }", "{ break 1; break 2; }", "{ return 1; 2 }", "{ a?; b? }", "(1)", "let x", "=", ";", "if c", "else", "match c",
    "loop", "for x in y", "break", "return", "?", "marker!", "#[never]", "#[nested]", "#[auto_enum(A)]", "||", "async", "unsafe", "'a", ":", ".m()", "a", "+", "#[rec]", "const C: u8",
];

const ENUM_SYMS: &[&str] = &[
    "enum E", "enum", "struct S", "union U", "E", "pub", "pub(crate)", "<A>", "<'a, A: 'a, const N: usize>", "<A = u8>", "where A: B,", "{}", "{ A }", "{ A, B }", "{ A(A) }", "{ A(u8), B(u16) }", "{ A(A), B }",
    "{ A { x: u8 } }", "{ A(u8, u8) }", "{ A() }", "{ A = 1 }", "{ A(u8) = 1, B(u8) = 2 }", "{ #[x] A(#[y] u8), }", "(u8)", ";", "#[derive(Clone)]", "#[x]", "#[auto_enum]", "#[enum_derive(Iterator)]", "unsafe", "fn f()", "trait T",
];

// ---- (c) single token mutations

#[derive(Default)]
struct Sites(Vec<(TokenStream, TokenStream)>);
impl<'a> Visit<'a> for Sites {
    fn visit_item_fn(&mut self, f: &'a ItemFn) {
        if let Some(k) = f.attrs.iter().position(|a| a.path().is_ident("auto_enum")) {
            let mut g = f.clone();
            let a = g.attrs.remove(k);
            self.0.push((attr_args(&a), g.to_token_stream()));
        }
        visit::visit_item_fn(self, f);
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(k) = l.attrs.iter().position(|a| a.path().is_ident("auto_enum")) {
            let mut g = l.clone();
            let a = g.attrs.remove(k);
            self.0.push((attr_args(&a), g.to_token_stream()));
        }
        visit::visit_local(self, l);
    }
}

const REPL: &[&str] = &["x", "if", "else", "match", "return", "break", "?", ";", "{}", "#[never]", "#[nested]", "#[auto_enum(Debug)]", "marker!", "=>", "let", "loop", "fn", "'a", "|", "1"];

/// all single-token mutations of a token stream
fn mutations(ts: &TokenStream, f: &mut dyn FnMut(TokenStream)) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let build = |f: &mut dyn FnMut(TokenStream), pre: &[TokenTree], mid: TokenStream, post: &[TokenTree]| {
        let mut t: TokenStream = pre.iter().cloned().collect();
        t.extend(mid);
        t.extend(post.iter().cloned());
        f(t)
    };
    for i in 0..=v.len() {
        for r in REPL {
            let r: TokenStream = r.parse().unwrap_or_default();
            if i < v.len() {
                build(f, &v[..i], r.clone(), &v[i + 1..]);
            }
            build(f, &v[..i], r, &v[i..]);
        }
        if i == v.len() {
            break;
        }
        build(f, &v[..i], TokenStream::new(), &v[i + 1..]);
        build(f, &v[..=i], v[i].clone().into(), &v[i + 1..]);
        if i + 1 < v.len() {
            build(f, &v[..i], [v[i + 1].clone(), v[i].clone()].into_iter().collect(), &v[i + 2..]);
        }
        match &v[i] {
            TokenTree::Group(g) => {
                for d in [Delimiter::Brace, Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::None] {
                    if d != g.delimiter() {
                        build(f, &v[..i], TokenTree::from(Group::new(d, g.stream())).into(), &v[i + 1..]);
                    }
                }
                // unwrap the group
                build(f, &v[..i], g.stream(), &v[i + 1..]);
                mutations(&g.stream(), &mut |s| build(f, &v[..i], TokenTree::from(Group::new(g.delimiter(), s)).into(), &v[i + 1..]));
            }
            TokenTree::Punct(p) => {
                let mut q = proc_macro2::Punct::new(p.as_char(), if p.spacing() == Spacing::Joint { Spacing::Alone } else { Spacing::Joint });
                q.set_span(p.span());
                build(f, &v[..i], TokenTree::from(q).into(), &v[i + 1..]);
            }
            // an expression in an invisible group, as macro_rules fragments are
            t => build(f, &v[..i], TokenTree::from(Group::new(Delimiter::None, t.clone().into())).into(), &v[i + 1..]),
        }
    }
}

fn mutated(tier: &str, secs: u64) {
    use gen::Profile::*;
    let per = if tier == "thorough" { 900 } else { 60 };
    let mut seeds: BTreeSet<(String, String)> = BTreeSet::new();
    for (p, fuel) in [(Branch, 2), (Loop, 1), (Return, 1), (Try, 1), (Diverge, 2), (Nested, 2), (Marker, 4), (Multi, 1)] {
        let mut ch = chooser::Chooser::default();
        let mut all = vec![];
        loop {
            if let Some(pr) = gen::generate(&mut ch, p, fuel) {
                all.push(pr.src);
            }
            if !ch.advance() || all.len() > 60_000 {
                break;
            }
        }
        let step = (all.len() / per).max(1);
        for src in all.iter().step_by(step) {
            if let Ok(f) = parse_str::<File>(src) {
                let mut s = Sites::default();
                s.visit_file(&f);
                for (a, t) in s.0 {
                    seeds.insert((a.to_string(), t.to_string()));
                }
            }
        }
    }
    let seeds: Vec<_> = seeds.into_iter().collect();
    let t0 = std::time::Instant::now();
    let name = format!("total: single-token mutations of {} annotated nodes", seeds.len());
    let (acc, complete) = par(&name, seeds.len() as u64, secs, |i, acc, now| {
        let (a, t) = &seeds[i as usize];
        now.set(t);
        let (args, t): (TokenStream, TokenStream) = (a.parse().unwrap(), t.parse().unwrap());
        if acc.samples.is_empty() {
            acc.samples.push(t.to_string());
        }
        mutations(&t, &mut |m| {
            total(Mac::Auto, &args, &m, acc);
        });
    });
    println!("{}", acc.json(&name, complete, t0.elapsed().as_secs_f64()));

    let enums = [
        "enum E<A, B> { A(A), B(B) }",
        "#[derive(Clone)] pub(crate) enum E<'a, T: 'a + Copy, const N: usize> where T: Debug { #[x] A([T; N]), B(&'a T), C(u8), }",
        "enum E { A { x: u8 }, B(u8, u16), C }",
    ];
    let lists = ["Iterator", "Debug, Display", "Future", "io::Read, io::BufRead", "Deref, DerefMut", "Fn", "Transpose", "serde::Serialize", "rayon::ParallelIterator", "Clone", ""];
    let name = "total: single-token mutations of enums".to_string();
    let t0 = std::time::Instant::now();
    let (acc, complete) = par(&name, (enums.len() * lists.len()) as u64, secs, |i, acc, now| {
        let (e, l) = (enums[i as usize % enums.len()], lists[i as usize / enums.len()]);
        now.set(e);
        let (args, t): (TokenStream, TokenStream) = (l.parse().unwrap(), e.parse().unwrap());
        acc.samples.truncate(1);
        acc.samples.push(format!("#[enum_derive({l})] {e}"));
        mutations(&t, &mut |m| {
            total(Mac::Derive, &args, &m, acc);
        });
    });
    println!("{}", acc.json(&name, complete, t0.elapsed().as_secs_f64()));
}

// ---- (d) single defects

/// (defect, the same without the defect); `@` stands for the marker macro in scope
const DEFECTS: &[(&str, &str, &str)] = &[
    ("one value", "match c { _ => a }", "match c { 0 => a, _ => b }"),
    ("one value", "match c { 0 => a, _ => panic!() }", "match c { 0 => a, _ => b }"),
    ("one value", "match c { 0 => a, _ => { unreachable!(\"x\") } }", "match c { 0 => a, _ => { g() } }"),
    ("one value", "if c { a } else { panic!() }", "if c { a } else { g() }"),
    ("one value", "if c { a } else { std::process::exit(1); #[never] g() }", "if c { a } else { std::process::exit(1); g() }"),
    ("one value", "match c { 0 => a, #[never] _ => b }", "match c { 0 => a, _ => b }"),
    ("one value", "match c { 0 => a, _ => #[never] b }", "match c { 0 => a, _ => b }"),
    ("one value", "loop { break a; }", "loop { if c { break a; } break b; }"),
    ("one value", "@!(a)", "if c { @!(a) } else { @!(b) }"),
    ("one value", "{ g(@!(a)) }", "{ g(@!(a)); h(@!(b)) }"),
    ("no value", "match c { 0 => panic!(), _ => unreachable!() }", "match c { 0 => g(), _ => h() }"),
    ("one value", "match c { 0 => a, 1 => { #[never] die!(); } _ => { panic! {} } }", "match c { 0 => a, 1 => { die!() } _ => { panic! {} } }"),
    ("one value", "@! { a }", "if c { @! { a } } else { h(); @! { b } }"),
    ("malformed never", "match c { 0 => a, 1 => b, _ => { #[never(x)] die!(); } }", "match c { 0 => a, 1 => b, _ => { #[never] die!(); } }"),
    ("malformed never", "{ #[never = 1] log! { x } match c { 0 => a, _ => b } }", "{ #[never] log! { x } match c { 0 => a, _ => b } }"),
    ("malformed marker", "if c { @! { fn } } else { @! { e } }", "if c { @! { a } } else { @! { e } }"),
    ("removed rec", "{ #[rec] log!(x); match c { 0 => a, _ => b } }", "{ log!(x); match c { 0 => a, _ => b } }"),
    ("no value", "log!(x)", "g(@!(a), @!(b))"),
    ("no value", "g(a)", "g(@!(a), @!(b))"),
    ("no value", "loop {}", "loop { if c { break } break }"),
    ("no value", "while c {}", "while c { g(@!(a), @!(b)) }"),
    ("no value", "match c {}", "match c { 0 => a, _ => b }"),
    ("no value", "{ match c { 0 => a, _ => b }; }", "{ match c { 0 => a, _ => b } }"),
    ("no else", "if c { a }", "if c { a } else { b }"),
    ("no else", "if c { a } else if d { b }", "if c { a } else if d { b } else { e }"),
    ("no else", "if let Some(x) = c { a } else if d { b } else if e { g() }", "if let Some(x) = c { a } else if d { b } else if e { g() } else { h() }"),
    ("no else in nested", "match c { 0 => a, 1 => b, #[nested] _ => if d { e } }", "match c { 0 => a, 1 => b, #[nested] _ => if d { e } else { f } }"),
    ("no else in nested", "match c { 0 => a, 1 => b, _ => { #[nested] if d { e } } }", "match c { 0 => a, 1 => b, _ => { #[nested] if d { e } else { f } } }"),
    ("no else in nested", "if c { a } else { #[nested] { if d { e } } }", "if c { a } else { #[nested] { if d { e } else { f } } }"),
    ("no else in nested", "match c { 0 => a, 1 => b, #[nested] _ => (if d { e }).m() }", "match c { 0 => a, 1 => b, #[nested] _ => (if d { e } else { f }).m() }"),
    ("malformed never", "match c { 0 => a, 1 => b, #[never(x)] _ => e }", "match c { 0 => a, 1 => b, #[never] _ => e }"),
    ("malformed never", "match c { 0 => a, 1 => b, #[never()] _ => e }", "match c { 0 => a, 1 => b, #[never] _ => e }"),
    ("malformed never", "match c { 0 => a, 1 => b, #[never = \"x\"] _ => e }", "match c { 0 => a, 1 => b, #[never] _ => e }"),
    ("malformed never", "match c { 0 => a, 1 => b, _ => #[never(x)] e }", "match c { 0 => a, 1 => b, _ => #[never] e }"),
    ("malformed never", "if c { a } else if d { b } else { #[never = 1] g() }", "if c { a } else if d { b } else { #[never] g() }"),
    ("malformed never", "{ #[never(1)] let y = 1; match c { 0 => a, _ => b } }", "{ #[never] let y = 1; match c { 0 => a, _ => b } }"),
    ("malformed never", "{ g(#[never(1)] h()); match c { 0 => a, _ => b } }", "{ g(#[never] h()); match c { 0 => a, _ => b } }"),
    ("malformed nested", "match c { 0 => a, 1 => b, #[nested(x)] _ => if d { e } else { f } }", "match c { 0 => a, 1 => b, #[nested] _ => if d { e } else { f } }"),
    ("malformed nested", "match c { 0 => a, 1 => b, #[nested = 1] _ => if d { e } else { f } }", "match c { 0 => a, 1 => b, #[nested] _ => if d { e } else { f } }"),
    ("malformed nested", "match c { 0 => a, 1 => b, _ => #[nested()] { if d { e } else { f } } }", "match c { 0 => a, 1 => b, _ => #[nested] { if d { e } else { f } } }"),
    ("malformed nested", "{ #[nested(x)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[nested] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("removed rec", "match c { 0 => a, 1 => b, #[rec] _ => if d { e } else { f } }", "match c { 0 => a, 1 => b, #[nested] _ => if d { e } else { f } }"),
    ("removed rec", "match c { 0 => a, 1 => b, _ => #[rec] { if d { e } else { f } } }", "match c { 0 => a, 1 => b, _ => #[nested] { if d { e } else { f } } }"),
    ("removed rec", "{ #[rec] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[nested] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("removed rec", "{ #[rec(x)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[nested] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("malformed marker", "if c { @!(a, b) } else { @!(e) }", "if c { @!(a) } else { @!(e) }"),
    ("malformed marker", "if c { @!() } else { @!(e) }", "if c { @!(a) } else { @!(e) }"),
    ("malformed marker", "if c { @![fn] } else { @!(e) }", "if c { @![a] } else { @!(e) }"),
    ("malformed marker", "g(@!(a b), @!(e))", "g(@!(a), @!(e))"),
    ("malformed auto_enum", "{ #[auto_enum = \"x\"] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("malformed auto_enum", "{ #[auto_enum(,)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone,)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("malformed auto_enum", "{ #[auto_enum(Clone Copy)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone, Copy)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("malformed auto_enum", "{ #[auto_enum(Clone, marker = 1)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone, marker = n)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("malformed auto_enum", "{ #[auto_enum(Clone, marker)] let y = if d { e } else { f }; g(#[auto_enum = 1] h()); match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y = if d { e } else { f }; g(h()); match c { 0 => a, _ => b } }"),
    ("malformed auto_enum", "{ g(#[auto_enum] match d { 0 => e, _ => f }); match c { 0 => a, _ => b } }", "{ g(#[auto_enum(Clone)] match d { 0 => e, _ => f }); match c { 0 => a, _ => b } }"),
    ("duplicate marker", "{ #[auto_enum(Clone, marker = n, marker = k)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone, marker = n)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("duplicate marker", "{ #[auto_enum(Clone, marker = n, marker = n)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone, marker = n)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("duplicate marker", "{ #[auto_enum(Clone, marker = @)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone, marker = n)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("duplicate marker", "{ #[auto_enum(Clone, marker = @)] match d { 0 => e, _ => f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone, marker = n)] let _ = match d { 0 => e, _ => f }; match c { 0 => a, _ => b } }"),
    ("duplicate marker", "{ #[auto_enum(Clone, marker = n)] let y = { #[auto_enum(Clone, marker = n)] let z = if d { e } else { f }; if d { z } else { f } }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone, marker = n)] let y = { #[auto_enum(Clone, marker = k)] let z = if d { e } else { f }; if d { z } else { f } }; match c { 0 => a, _ => b } }"),
    ("uninitialised let", "{ #[auto_enum(Clone)] let y; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("uninitialised let", "{ #[auto_enum(Clone)] let y: u8; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y: u8 = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("inner: one value", "{ #[auto_enum(Clone)] let y = if d { e } else { panic!() }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("inner: no value", "{ #[auto_enum(Clone)] let y = d; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("inner: no value", "{ #[auto_enum(Clone)] match d { 0 => e, _ => f }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] match d { 0 => marker!(e), _ => marker!(f) }; match c { 0 => a, _ => b } }"),
    ("inner: no else", "{ #[auto_enum(Clone)] let y = if d { e }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y = if d { e } else { f }; match c { 0 => a, _ => b } }"),
    ("inner: no else", "if c { a } else { g(#[auto_enum(Clone)] if d { e }) }", "if c { a } else { g(#[auto_enum(Clone)] if d { e } else { f }) }"),
    ("inner: malformed never", "{ #[auto_enum(Clone)] let y = match d { 0 => e, 1 => f, #[never(x)] _ => g }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y = match d { 0 => e, 1 => f, #[never] _ => g }; match c { 0 => a, _ => b } }"),
    ("inner: removed rec", "{ #[auto_enum(Clone)] let y = match d { 0 => e, 1 => f, #[rec] _ => g }; match c { 0 => a, _ => b } }", "{ #[auto_enum(Clone)] let y = match d { 0 => e, 1 => f, #[nested] _ => g }; match c { 0 => a, _ => b } }"),
];

const WRAPS: &[&str] = &["%", "{ % }", "{ let y = 1; % }", "(%)", "unsafe { % }", "(%).m(1)", "{ %.m().n::<u8>() }", "((%))", "{ { g(); { % } } }", "unsafe { (%) }"];

/// (arguments, program); `%` is the site
const PLACES: &[(&str, &str)] = &[
    ("Debug%", "fn f(c: u8) -> impl Debug { % }"),
    ("Debug%", "fn f(c: u8) -> Foo { g(); % }"),
    ("Debug%", "let x = %;"),
    ("Debug%", "let (x, mut y) = %;"),
    ("Debug%", "{ % }"),
    ("Debug%", "let x = |q: u8| { % };"),
    ("Debug%", "let x = move || -> u8 { g(); % };"),
    ("", "fn o() { #[auto_enum(Debug%)] let x = %; 0 }"),
    ("", "fn o() -> u8 { g(); #[auto_enum(Debug%)] { % } }"),
    ("", "fn o() { if c { #[auto_enum(Debug%)] let x = %; } else { loop { #[auto_enum(Debug)] let x = if e { 1 } else { 2 }; } } }"),
    ("Debug", "fn o(c: u8) -> impl Debug { #[auto_enum(Debug%)] let x = %; if d { 1 } else { 2 } }"),
    ("Debug, marker = outer", "fn o(c: u8) -> impl Debug { if d { #[auto_enum(Debug%)] let x = %; outer!(1) } else { outer!(2) } }"),
    ("", "fn o() { let z = |x: u8| { async { #[auto_enum(Debug%)] let x = %; } }; }"),
];

fn defects(secs: u64) {
    let marks = ["", ", marker = mk"];
    let total_n = DEFECTS.len() * WRAPS.len() * PLACES.len() * marks.len();
    let t0 = std::time::Instant::now();
    let name = "total: single defects and their defect-free twins".to_string();
    let (acc, complete) = par(&name, total_n as u64, secs, |i, acc, now| {
        let mut i = i as usize;
        let mut d = |k: usize| { let x = i % k; i /= k; x };
        let ((what, bad, good), w, (pa, place), mk) = (DEFECTS[d(DEFECTS.len())], WRAPS[d(WRAPS.len())], PLACES[d(PLACES.len())], marks[d(marks.len())]);
        let m = if mk.is_empty() { "marker" } else { "mk" };
        // the default marker may be shadowed, a custom one may not
        if what == "duplicate marker" && mk.is_empty() && bad.contains("= @") {
            return;
        }
        for (site, reject) in [(bad, true), (good, false)] {
            let prog = place.replacen("Debug%", &format!("Debug{mk}"), 1).replacen('%', &w.replace('%', site), 1).replace('@', m);
            let args = pa.replace('%', mk);
            now.set(&prog);
            let Ok(input) = prog.parse::<TokenStream>() else { return acc.bad(prog, "BROKEN: does not lex") };
            if parse2::<Stmt>(input.clone()).is_err() && parse2::<Expr>(input.clone()).is_err() {
                // a form rustc would not accept either
                return;
            }
            let show = format!("#[auto_enum({args})] {prog}");
            match total(Mac::Auto, &args.parse().unwrap(), &input, acc) {
                Some(Got::Accepted(out)) if reject => {
                    acc.bad(show, format!("{what}: accepted instead of rejected; the twin {good:?} is the correct form. Output: {out}"))
                }
                Some(Got::Accepted(out)) => {
                    let s = scan(&out, &["marker", "mk", "n", "k"]);
                    if let Some(x) = s.left {
                        acc.bad(show, format!("`{x}` is left in the expansion: {out}"));
                    } else if !s.enums.iter().any(|n| *n >= 2) {
                        acc.bad(show, format!("no enum with two variants: {out}"));
                    }
                }
                Some(Got::Rejected(m)) if !reject => acc.bad(show, format!("correct program rejected: {m}")),
                _ => {}
            }
            if acc.samples.is_empty() {
                acc.samples.push(format!("#[auto_enum({args})] {prog}"));
            }
        }
    });
    println!("{}", acc.json(&name, complete, t0.elapsed().as_secs_f64()));

    // items, empty functions, uninitialised lets
    let bad = [
        "struct S;", "struct S { a: u8 }", "enum E { A, B }", "union U { a: u8 }", "trait T {}", "impl S {}", "impl T for S {}", "mod m { }", "mod m;", "const C: u8 = if a { 1 } else { 2 };",
        "static S: u8 = if a { 1 } else { 2 };", "use a::b;", "type T = u8;", "extern \"C\" { fn f(); }", "extern crate a;", "macro_rules! m { () => {} }", "trait T = Clone;",
        "fn f() {}", "fn f() -> u8 {}", "fn f() -> impl Debug {}", "pub async fn f() -> impl Debug {}", "fn f() -> Result<u8, impl Debug> {}", "fn f();",
        "let x;", "let x: u8;", "let x: impl Debug;", "let (a, b);", "fn", "{", "1 +", "=>", "", "#[never]", "pub", "let", "a b", "if c {} {}", "match", "struct", "}",
        // no wrapped value at all
        "fn f() -> impl Debug { 1 }", "fn f() -> u8 { g(); }", "fn f() -> impl Debug { return 1; }", "let x = 1;", "let x = || 1;", "1", "g()", "a + b", "return 1", "break", "x = if c { 1 } else { 2 }", "|x| x", "async { 1 }",
        "g();", "if c { 1 } else { 2 };", "match c { 0 => 1, _ => 2 };", "loop { break 1; };",
    ];
    let arglists = ["Debug", "Iterator, Clone", "Debug, marker = m", "my::Trait"];
    let name = "total: unsupported items, empty functions, uninitialised lets".to_string();
    let t0 = std::time::Instant::now();
    let (acc, complete) = par(&name, (bad.len() * arglists.len()) as u64, secs, |i, acc, now| {
        let (s, a) = (bad[i as usize % bad.len()], arglists[i as usize / bad.len()]);
        now.set(s);
        let Ok(input) = s.parse::<TokenStream>() else { return };
        if let Some(Got::Accepted(out)) = total(Mac::Auto, &a.parse().unwrap(), &input, acc) {
            acc.bad(format!("#[auto_enum({a})] {s}"), format!("accepted instead of rejected: {out}"));
        }
        if acc.samples.is_empty() {
            acc.samples.push(format!("#[auto_enum({a})] {s}"));
        }
    });
    println!("{}", acc.json(&name, complete, t0.elapsed().as_secs_f64()));
}

pub fn c09(tier: &str, secs: u64) {
    let deep = tier == "thorough";
    defects(secs);
    if tier == "repeat" {
        args_universe(3, secs);
        strings(Mac::Auto, &["", "A", "A, marker = m"], SYMS, 2, secs);
        return;
    }
    args_universe(if deep { 5 } else { 4 }, secs);
    for l in 1..=3 {
        strings(Mac::Auto, &["", "A", "A, marker = m"], SYMS, l, secs);
        strings(Mac::Derive, &["", "Iterator", "Debug, Clone"], ENUM_SYMS, l, secs);
    }
    if deep {
        strings(Mac::Auto, &["", "A"], SYMS, 4, secs);
        strings(Mac::Derive, &["Iterator"], ENUM_SYMS, 4, secs);
    } else {
        strings(Mac::Auto, &["A"], CORE, 4, secs);
    }
    mutated(tier, secs);
}
