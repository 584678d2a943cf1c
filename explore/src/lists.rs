//! C21, C24, C19 (rejections), C22, C23 (shapes): exhaustive exploration of `enum_derive`'s
//! argument lists and enum shapes, on the real macro in process.
use std::{
    collections::{BTreeMap, BTreeSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Mutex, OnceLock},
};

use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::{visit::Visit, *};

use crate::{
    auto::{compile_error_in, panic_msg},
    catalog::*,
    par::{par, Acc, Now},
};

pub enum Out {
    Panic(String),
    Error(String),
    Ok(TokenStream),
}

pub fn derive(args: &str, item: &str) -> Out {
    let (Ok(a), Ok(i)) = (args.parse::<TokenStream>(), item.parse::<TokenStream>()) else {
        return Out::Error("not lexable".into());
    };
    match catch_unwind(AssertUnwindSafe(|| aelib::enum_derive(a, i))) {
        Err(p) => Out::Panic(panic_msg(&p)),
        Ok(ts) => match compile_error_in(&ts) {
            Some(m) => Out::Error(m),
            None => Out::Ok(ts),
        },
    }
}

/// an accepted expansion: the enum item and the other items as text
pub struct Expansion {
    pub item: ItemEnum,
    pub items: Vec<String>,
    pub impls: Vec<(String, String, String)>, // (root, last segment, whole path)
    pub inherent: usize,
}

fn path_key(p: &Path) -> (String, String, String) {
    let root = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
    let root = if ["core", "std", "alloc"].contains(&&*root) { "std".into() } else { root };
    let last = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let whole: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    (root, last, whole.join("::"))
}

pub fn parse_out(ts: &TokenStream) -> std::result::Result<Expansion, String> {
    let f: File = parse2(ts.clone()).map_err(|e| format!("output is not valid syntax: {e}"))?;
    let mut it = f.items.into_iter();
    let mut item = None;
    let mut items = vec![];
    let mut impls = vec![];
    let mut inherent = 0;
    for x in it.by_ref() {
        match x {
            Item::Enum(e) if item.is_none() => item = Some(e),
            Item::Impl(i) => {
                match &i.trait_ {
                    Some((None, p, _)) => impls.push(path_key(p)),
                    Some(_) => return Err("negative implementation".into()),
                    None => inherent += 1,
                }
                items.push(i.to_token_stream().to_string());
            }
            Item::Const(c) if c.ident == "_" => items.push(c.to_token_stream().to_string()),
            x => return Err(format!("the derive added an item other than an implementation: {}", x.to_token_stream())),
        }
    }
    let item = item.ok_or("the enum is missing from the output")?;
    Ok(Expansion { item, items, impls, inherent })
}

/// `#[derive]` paths the macro added to `attrs` (relative to `orig`)
fn added_derives(orig: &[Attribute], out: &[Attribute]) -> std::result::Result<Vec<String>, String> {
    let mut k = 0;
    let mut v = vec![];
    let o: Vec<String> = orig.iter().map(|a| a.to_token_stream().to_string()).collect();
    for a in out {
        let s = a.to_token_stream().to_string();
        if k < o.len() && s == o[k] {
            k += 1;
            continue;
        }
        if !a.path().is_ident("derive") {
            return Err(format!("attribute added or changed: {s}"));
        }
        let l = a
            .parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated)
            .map_err(|e| format!("bad derive attribute: {e}"))?;
        v.extend(l.iter().map(|p| p.to_token_stream().to_string().replace(' ', "")));
    }
    if k != o.len() {
        return Err(format!("attribute lost or reordered: {}", o[k]));
    }
    Ok(v)
}

fn same_item(orig: &ItemEnum, out: &ItemEnum) -> bool {
    let (mut a, mut b) = (orig.clone(), out.clone());
    a.attrs.clear();
    b.attrs.clear();
    a.to_token_stream().to_string() == b.to_token_stream().to_string()
}

pub const SHAPES: &[&str] = &[
    "enum E < A , B > { A (A) , B (B) }",
    "pub ( crate ) enum E < 'a , A : 'a + Clone , B , const N : usize > where B : Default { V0 (& 'a A) , V1 ([B ; N]) , V2 (A) , }",
    "enum E { A (u8) }",
];

/// items of the single-trait expansions, per shape and spelling
fn singles() -> &'static Mutex<BTreeMap<(usize, String), BTreeSet<String>>> {
    static S: OnceLock<Mutex<BTreeMap<(usize, String), BTreeSet<String>>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut m = BTreeMap::new();
        for (k, sh) in SHAPES.iter().enumerate() {
            for n in spellings().iter().map(|x| x.0).chain([TRANSPOSE]) {
                if let Out::Ok(ts) = derive(n, sh) {
                    if let Ok(x) = parse_out(&ts) {
                        m.insert((k, n.to_string()), x.items.into_iter().collect());
                    }
                }
            }
        }
        Mutex::new(m)
    })
}

/// one list: acceptance, implementations, pass-through
fn check_list(list: &[&str], shape: usize, single: &BTreeMap<(usize, String), BTreeSet<String>>, acc: &mut Acc, now: &Now) {
    let args = list.join(" , ");
    let prog = format!("#[enum_derive({args})] {}", SHAPES[shape]);
    now.set(&prog);
    acc.states += 1;
    acc.transitions += list.len() as u64;
    let ts = match derive(&args, SHAPES[shape]) {
        Out::Panic(m) => return acc.bad(prog, format!("macro panicked: {m}")),
        Out::Error(m) => return acc.bad(prog, format!("valid derive rejected: {m}")),
        Out::Ok(ts) => ts,
    };
    let x = match parse_out(&ts) {
        Ok(x) => x,
        Err(m) => return acc.bad(prog, m),
    };
    acc.accepted += 1;
    let known = |n: &str| CATALOG.iter().position(|t| t.names.contains(&n));
    // which traits must be implemented
    let mut want: BTreeSet<usize> = BTreeSet::new();
    let mut unknown = vec![];
    let mut transpose = false;
    for n in list {
        match known(n) {
            Some(i) => want.extend(closure(i)),
            None if *n == TRANSPOSE => transpose = true,
            None => unknown.push(n.replace(' ', "")),
        }
    }
    let mut want_impls: Vec<(String, String)> =
        want.iter().map(|&i| (CATALOG[i].path.0.to_string(), CATALOG[i].path.1.to_string())).collect();
    if want.iter().any(|&i| CATALOG[i].pinned) {
        want_impls.push(("std".into(), "Unpin".into()));
    }
    want_impls.sort();
    let mut have: Vec<(String, String)> = x.impls.iter().map(|p| (p.0.clone(), p.1.clone())).collect();
    have.sort();
    if have != want_impls {
        return acc.bad(prog, format!("implemented traits are {have:?}, expected {want_impls:?}"));
    }
    if (x.inherent > 0) != transpose {
        return acc.bad(prog, format!("{} inherent impl blocks", x.inherent));
    }
    // the implementations are those of the single derives, each exactly once, whatever the order
    let set: BTreeSet<String> = x.items.iter().cloned().collect();
    if set.len() != x.items.len() {
        return acc.bad(prog, "an implementation is emitted twice");
    }
    let mut union = BTreeSet::new();
    for n in list {
        if let Some(s) = single.get(&(shape, n.to_string())) {
            union.extend(s.iter().cloned());
        }
    }
    if union != set {
        let a: Vec<_> = set.symmetric_difference(&union).take(2).collect();
        return acc.bad(prog, format!("implementations are not the union of those of the single traits: {a:?}"));
    }
    // pass-through
    let orig: ItemEnum = parse_str(SHAPES[shape]).unwrap();
    match added_derives(&orig.attrs, &x.item.attrs) {
        Err(m) => return acc.bad(prog, m),
        Ok(d) if d != unknown => {
            return acc.bad(prog, format!("passed to #[derive]: {d:?}, expected {unknown:?}"));
        }
        _ => {}
    }
    if !same_item(&orig, &x.item) {
        acc.bad(prog, format!("the enum was changed: {}", x.item.to_token_stream()));
    }
}

/// all ordered lists without repeated traits of length k over `names`
fn ordered(name: &str, names: &[&'static str], k: u32, shapes: &[usize], secs: u64, permutations: bool) {
    let single = singles().lock().unwrap().clone();
    let n = names.len() as u64;
    // the three tokio versions with pinned traits all name the crate `tokio`: one and the same path
    let id = |s: &str| {
        CATALOG.iter().find(|t| t.names.contains(&s)).map_or(s.to_string(), |t| {
            if t.pinned && t.path.0 == "tokio" { format!("tokio {}", t.path.1) } else { t.names[0].to_string() }
        })
    };
    let ids: Vec<String> = names.iter().map(|n| id(n)).collect();
    let total = n.pow(k) * shapes.len() as u64;
    let t0 = std::time::Instant::now();
    let (acc, complete) = par(name, total, secs, |i, acc, now| {
        let shape = shapes[(i % shapes.len() as u64) as usize];
        let mut j = i / shapes.len() as u64;
        let mut l = vec![];
        for _ in 0..k {
            l.push((j % n) as usize);
            j /= n;
        }
        for a in 0..l.len() {
            for b in 0..a {
                if ids[l[a]] == ids[l[b]] || !permutations && l[a] < l[b] {
                    return;
                }
            }
        }
        let list: Vec<&str> = l.iter().map(|&x| names[x]).collect();
        check_list(&list, shape, &single, acc, now);
        if acc.samples.is_empty() {
            acc.samples.push(format!("#[enum_derive({})] {}", list.join(", "), SHAPES[shape]));
        }
    });
    println!("{}", acc.json(&format!("{name}: ordered lists of {k} distinct traits over {n} names"), complete, t0.elapsed().as_secs_f64()));
}

fn related() -> Vec<&'static str> {
    // traits with dependencies, their dependencies, and aliased traits
    let mut v = vec![];
    for (i, t) in CATALOG.iter().enumerate() {
        let dep_of = CATALOG.iter().any(|u| u.deps.contains(&t.names[0]));
        let _ = i;
        if !t.deps.is_empty() || dep_of || t.names.len() > 1 {
            v.extend(t.names);
        }
    }
    v
}

pub fn c21(tier: &str, secs: u64) {
    let all: Vec<&'static str> = spellings().iter().map(|x| x.0).collect();
    ordered("single", &all, 1, &[0, 1, 2], secs, true);
    ordered("pairs", &all, 2, &[0, 1], secs, true);
    let mut rel = related();
    ordered("related", &rel, 3, &[0], secs, true);
    rel.push("Future");
    rel.push("Clone");
    if tier == "thorough" {
        ordered("triples", &all, 3, &[0], secs, true);
        ordered("related", &rel, 4, &[0], secs, true);
        // deeper orders of the densest families
        let fam: [&[&'static str]; 5] = [
            &["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend"],
            &["Read", "io::Read", "BufRead", "io::BufRead", "Write", "io::Write", "Seek", "io::Seek", "fmt::Write"],
            &["Error", "error::Error", "Debug", "fmt::Debug", "Display", "fmt::Display", "Clone"],
            &["Fn", "FnMut", "FnOnce", "Deref", "DerefMut", "Index", "IndexMut"],
            &["Future", "Coroutine", "futures03::Stream", "http_body1::Body", "Iterator", "Clone"],
        ];
        for f in fam {
            for k in 3..=6 {
                ordered("family", f, k, &[0], secs, true);
            }
        }
    }
}

/// C24: lists mixing supported and unsupported paths
pub fn c24(tier: &str, secs: u64) {
    let sup = ["Iterator", "Debug", "fmt::Debug", "ExactSizeIterator", "Future", "BufRead", "tokio1::AsyncRead", "Error"];
    let mut v: Vec<&'static str> = UNKNOWN.to_vec();
    v.extend(sup);
    ordered("mixed", &v, 1, &[0, 1, 2], secs, true);
    ordered("mixed", &v, 2, &[0, 1], secs, true);
    // every supported name next to every unsupported one, both orders
    let all: Vec<&'static str> = spellings().iter().map(|x| x.0).collect();
    let mut w = vec!["Clone", "my::Iterator", "Hash"];
    w.extend(&all);
    ordered("all with unsupported", &w, 2, &[0], secs, true);
    let small = ["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "my::Iterator", "std::fmt::Debug", "Iterator", "Debug", "Future", "ExactSizeIterator", "BufRead"];
    ordered("mixed", &small, 3, &[0], secs, true);
    if tier == "thorough" {
        ordered("mixed", &v, 3, &[0], secs, true);
        ordered("mixed", &small, 4, &[0], secs, true);
    }
    items(tier, secs);
}

/// C24: the enum is emitted unchanged, for every combination of its parts
fn items(tier: &str, secs: u64) {
    let attrs = [
        "", "# [doc = \"x\"]", "# [derive (Copy)]", "# [repr (u8)]", "# [cfg_attr (all () , derive (Eq))] # [allow (dead_code)]",
        "# [derive (Clone)] # [non_exhaustive]", "# [enum_derive (Read)]", "# [must_use]",
    ];
    let vis = ["", "pub", "pub (crate)", "pub (super)", "pub (in crate :: m)"];
    let gens = [
        ("", ""), ("< A >", ""), ("< A , B , >", ""), ("< 'a , A : 'a >", "where A : Clone ,"), ("< const N : usize , A = u8 >", ""),
        ("< A : Copy + ?Sized , B : for < 'x > Fn (& 'x u8) = fn (& u8) >", "where for < 'y > B : Sized"), ("< # [cfg (x)] A >", ""), ("< 'a , 'b : 'a >", "where 'a : 'b"),
    ];
    let fields = [
        "V (A)", "V (u8) ,", "V (A) , W (A)", "W (A) , V (u8) , # [doc = \"y\"] U (Vec < A >) ,", "V (# [cfg (x)] A ,)", "V (pub A) , r#fn (& 'static str)",
        "V ([A ; 3]) , W ((A , A)) , X (fn (A) -> A) , Y (dyn Tr + 'static) , Z (< A as Tr > :: X)", "V (E)",
    ];
    let args = ["", "Clone", "Debug , Clone", "Iterator , Hash , ExactSizeIterator", "Future", "Clone ,", "Error , my :: D , Future"];
    let dims = [attrs.len(), vis.len(), gens.len(), fields.len(), args.len()];
    let total: usize = dims.iter().product();
    let t0 = std::time::Instant::now();
    let step = if tier == "thorough" { 1 } else { 1 };
    let (acc, complete) = par("items", (total / step) as u64, secs, |i, acc, now| {
        let mut j = i as usize;
        let mut d = |n: usize| {
            let k = j % n;
            j /= n;
            k
        };
        let (a, v, g, f, x) = (attrs[d(dims[0])], vis[d(dims[1])], gens[d(dims[2])], fields[d(dims[3])], args[d(dims[4])]);
        let item = format!("{a} {v} enum E {} {} {{ {f} }}", g.0, g.1);
        let prog = format!("#[enum_derive({x})] {item}");
        now.set(&prog);
        acc.states += 1;
        acc.transitions += 5;
        let orig: ItemEnum = match parse_str(&item) {
            Ok(o) => o,
            Err(e) => return acc.bad(prog, format!("BROKEN: {e}")),
        };
        let ts = match derive(x, &item) {
            Out::Panic(m) => return acc.bad(prog, format!("macro panicked: {m}")),
            Out::Error(m) => return acc.bad(prog, format!("valid enum rejected: {m}")),
            Out::Ok(ts) => ts,
        };
        let e = match parse_out(&ts) {
            Ok(e) => e,
            Err(m) => return acc.bad(prog, m),
        };
        acc.accepted += 1;
        let unknown: Vec<String> = x
            .split(',')
            .map(|s| s.replace(' ', ""))
            .filter(|s| !s.is_empty() && !CATALOG.iter().any(|t| t.names.contains(&&**s)))
            .collect();
        match added_derives(&orig.attrs, &e.item.attrs) {
            Err(m) => return acc.bad(prog, m),
            Ok(d) if d != unknown => return acc.bad(prog, format!("passed to #[derive]: {d:?}, expected {unknown:?}")),
            _ => {}
        }
        if !same_item(&orig, &e.item) {
            return acc.bad(prog, format!("the enum was changed: {}", e.item.to_token_stream()));
        }
        if acc.samples.is_empty() {
            acc.samples.push(prog);
        }
    });
    println!("{}", acc.json("items: attributes x visibility x generics x variants x list", complete, t0.elapsed().as_secs_f64()));
}

/// C22: classifies outputs of `enum_derive(name)` made by another build: implemented by the macro
/// or passed on to #[derive]. Lines `name TAB output` on stdin.
pub fn classify() {
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let Some((n, out)) = l.split_once('\t') else { continue };
        let st = match out.parse::<TokenStream>() {
            Err(e) => format!("bad {e}"),
            Ok(ts) if compile_error_in(&ts).is_some() => "error".into(),
            Ok(ts) => match parse_out(&ts) {
                Err(m) => format!("bad {m}"),
                Ok(x) => {
                    let d = added_derives(&[], &x.item.attrs);
                    match d {
                        Err(m) => format!("bad {m}"),
                        Ok(d) => {
                            let mut im: Vec<String> = x.impls.iter().filter(|p| p.1 != "Unpin").map(|p| format!("{}:{}", p.0, p.1)).collect();
                            im.sort();
                            format!("derive=[{}] impls=[{}] inherent={}", d.join(","), im.join(","), (x.inherent > 0) as u8)
                        }
                    }
                }
            },
        };
        println!("{n}\t{st}");
    }
}

/// C23/C19 rejections: every enum of up to `k` variants over the kinds of variants
pub fn shapes(tier: &str, secs: u64) {
    // (text, well-formed)
    let kinds: [(&str, bool); 9] = [
        ("V@ (A)", true), ("V@", false), ("V@ { x : A }", false), ("V@ ()", false), ("V@ (A , A)", false), ("V@ (A) = 1", false),
        ("V@ {}", false), ("# [doc = \"z\"] V@ (Vec < A > ,)", true), ("V@ = 2", false),
    ];
    let mut lists: Vec<String> = spellings().iter().map(|x| x.0.to_string()).collect();
    lists.extend(["Clone".into(), "Iterator , Clone".into(), "Clone , Debug , Hash".into(), "Future , Iterator".into()]);
    let k = kinds.len() as u64;
    let depth = if tier == "thorough" { 5 } else { 3 };
    let mut counts = vec![1u64];
    for d in 1..=depth {
        counts.push(k.pow(d));
    }
    let shapes_n: u64 = counts.iter().sum();
    let t0 = std::time::Instant::now();
    let heads = ["enum E < A >", "pub enum E < 'a , A : 'a , const N : usize >"];
    let per = lists.len() as u64 * heads.len() as u64;
    let (acc, complete) = par("shapes", shapes_n * per, secs, |i, acc, now| {
        let (mut s, r) = (i / per, i % per);
        let list = &lists[(r / heads.len() as u64) as usize];
        let head = heads[(r % heads.len() as u64) as usize];
        let mut n = 0;
        while s >= counts[n] {
            s -= counts[n];
            n += 1;
        }
        let mut ok = n > 0;
        let mut vs = vec![];
        for j in 0..n {
            let (t, w) = kinds[(s % k) as usize];
            s /= k;
            ok &= w;
            vs.push(t.replace('@', &j.to_string()));
        }
        let item = format!("{head} {{ {} }}", vs.join(" , "));
        let prog = format!("#[enum_derive({list})] {item}");
        now.set(&prog);
        acc.states += 1;
        acc.transitions += n as u64 + 1;
        match derive(list, &item) {
            Out::Panic(m) => acc.bad(prog, format!("macro panicked: {m}")),
            Out::Error(m) => {
                acc.rejected += 1;
                if ok {
                    acc.bad(prog, format!("well-formed enum rejected: {m}"));
                }
            }
            Out::Ok(ts) => {
                acc.accepted += 1;
                if !ok {
                    return acc.bad(prog, "an enum whose variants do not each hold exactly one unnamed field is accepted");
                }
                match parse_out(&ts) {
                    Err(m) => acc.bad(prog, m),
                    Ok(x) => {
                        if let Some(m) = arms(&x, n) {
                            acc.bad(prog, m);
                        }
                    }
                }
            }
        }
    });
    println!("{}", acc.json("shapes: variant kinds x list", complete, t0.elapsed().as_secs_f64()));

    // other items
    let others = [
        "struct S ;", "struct S (u8) ;", "struct S < A > { x : A }", "union U { a : u8 }", "fn f () {}", "trait T {}", "impl S {}", "mod m {}", "const C : u8 = 1 ;",
        "static C : u8 = 1 ;", "type T = u8 ;", "use a :: b ;", "extern crate a ;", "extern \"C\" {}", "macro_rules ! m { () => {} }", "m ! {}", "let x = 1 ;", "1", "",
        "enum", "enum E", "enum E {", "enum E { A (A) } enum F { A (A) }", "enum E { A (A) } ;", "enum E < A > where A : Copy ;", "enum { A (A) }", "enum E { A (A) B (B) }", "enum E ( A )",
    ];
    let total = (others.len() * lists.len()) as u64;
    let (acc, complete) = par("other items", total, secs, |i, acc, now| {
        let (o, l) = (others[i as usize % others.len()], &lists[i as usize / others.len()]);
        if o.parse::<TokenStream>().is_err() {
            return;
        }
        let prog = format!("#[enum_derive({l})] {o}");
        now.set(&prog);
        acc.states += 1;
        acc.transitions += 1;
        match derive(l, o) {
            Out::Panic(m) => acc.bad(prog, format!("macro panicked: {m}")),
            Out::Error(_) => acc.rejected += 1,
            Out::Ok(_) => acc.bad(prog, "accepted although it is not an enum"),
        }
    });
    println!("{}", acc.json("other items", complete, t0.elapsed().as_secs_f64()));
}

/// every `match` over the enum in the output has one arm per variant, in every implementation
fn arms(x: &Expansion, n: usize) -> Option<String> {
    struct M(usize, Option<String>);
    impl<'a> Visit<'a> for M {
        fn visit_expr_match(&mut self, m: &'a ExprMatch) {
            let on = m.arms.iter().filter(|a| a.pat.to_token_stream().to_string().replace(' ', "").starts_with("E::V")).count();
            let wild = m.arms.iter().any(|a| matches!(a.pat, Pat::Wild(_) | Pat::Ident(_)));
            if on > 0 && on != self.0 && !wild {
                self.1.get_or_insert(format!("a match of the derived code has {on} arms for {} variants", self.0));
            }
            visit::visit_expr_match(self, m);
        }
    }
    let mut m = M(n, None);
    for i in &x.items {
        if let Ok(i) = parse_str::<Item>(i) {
            m.visit_item(&i);
        }
    }
    m.1
}

/// C19: enums for which the transpose methods are meaningless
pub fn transpose_rejects(tier: &str, secs: u64) {
    // generics as a list of parameters, fields as a list of types: accepted iff the fields are
    // exactly the type parameters in order
    let params = ["A", "B", "C", "'a", "const N : usize", "A : Copy", "B = u8"];
    let types = ["A", "B", "C", "u8", "Vec < A >", "& 'a A", "[A ; N]", "Option < A >", "(A)", "E0"];
    let maxp = 3usize;
    let maxf = if tier == "thorough" { 4 } else { 3 };
    let (p, t) = (params.len(), types.len());
    let np: usize = (0..=maxp).map(|k| p.pow(k as u32)).sum();
    let nf: usize = (1..=maxf).map(|k| t.pow(k as u32)).sum();
    let seq = |mut i: usize, base: usize, min: usize| {
        let mut k = min;
        while i >= base.pow(k as u32) {
            i -= base.pow(k as u32);
            k += 1;
        }
        (0..k).map(|_| { let x = i % base; i /= base; x }).collect::<Vec<_>>()
    };
    let t0 = std::time::Instant::now();
    let lists = ["Transpose", "Transpose , Debug", "Clone , Transpose"];
    let total = (np * nf * 2) as u64;
    let (acc, complete) = par("transpose", total, secs, |i, acc, now| {
        let comma = i % 2 == 1;
        let i = (i / 2) as usize;
        let ps = seq(i % np, p, 0);
        let fs = seq(i / np, t, 1);
        let name = |s: &str| s.split(' ').next().unwrap().to_string();
        let names: Vec<String> = ps.iter().map(|&x| if x == 4 { "N".into() } else { name(params[x]) }).collect();
        // well-formed parameter lists only: distinct, lifetimes first
        let set: BTreeSet<&String> = names.iter().collect();
        if set.len() != names.len() || ps.iter().skip(1).any(|&x| x == 3) || comma && ps.is_empty() {
            return;
        }
        // bounds and defaults are outside the statement (whether they are meaningful is not documented)
        if ps.iter().any(|&x| x >= 5) {
            return;
        }
        let gen = if ps.is_empty() { String::new() } else { format!("< {} {}>", ps.iter().map(|&x| params[x]).collect::<Vec<_>>().join(" , "), if comma { ", " } else { "" }) };
        let vs: Vec<String> = fs.iter().enumerate().map(|(k, &f)| format!("V{k} ({})", types[f])).collect();
        let item = format!("enum E {gen} {{ {} }}", vs.join(" , "));
        let list = lists[i % lists.len()];
        let prog = format!("#[enum_derive({list})] {item}");
        now.set(&prog);
        let fields: Vec<&str> = fs.iter().map(|&f| types[f]).collect();
        let want = names.len() == fields.len() && names.iter().zip(&fields).all(|(a, b)| a == b) && ps.iter().all(|&x| x < 3);
        acc.states += 1;
        acc.transitions += (ps.len() + fs.len()) as u64;
        match derive(list, &item) {
            Out::Panic(m) => acc.bad(prog, format!("macro panicked: {m}")),
            Out::Error(m) => {
                acc.rejected += 1;
                if want {
                    acc.bad(prog, format!("meaningful transpose rejected: {m}"));
                }
            }
            Out::Ok(ts) => {
                acc.accepted += 1;
                if !want {
                    return acc.bad(prog, "transpose accepted although the fields are not exactly the enum's type parameters");
                }
                match parse_out(&ts) {
                    Err(m) => acc.bad(prog, m),
                    Ok(x) => {
                        if let Some(m) = arms(&x, fields.len()) {
                            acc.bad(prog, m);
                        }
                    }
                }
            }
        }
    });
    println!("{}", acc.json("transpose: generic parameters x fields", complete, t0.elapsed().as_secs_f64()));
}

pub fn catalog_json() {
    let q = |v: &[&str]| v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",");
    let l: Vec<String> = CATALOG
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let cl: Vec<String> = closure(i).iter().map(|&j| format!("\"{}:{}\"", CATALOG[j].path.0, CATALOG[j].path.1)).collect();
            format!(
                "{{\"names\":[{}],\"features\":[{}],\"deps\":[{}],\"path\":[\"{}\",\"{}\"],\"pinned\":{},\"impls\":[{}]}}",
                q(t.names), q(t.features), q(t.deps), t.path.0, t.path.1, t.pinned, cl.join(",")
            )
        })
        .collect();
    println!("[{}]", l.join(","));
}

/// what the expansions put into the scope of the annotated item
pub fn leaks(tier: &str, secs: u64) {
    let t0 = std::time::Instant::now();
    let names: Vec<&str> = spellings().iter().map(|x| x.0).chain([TRANSPOSE, "Clone"]).collect();
    let n = names.len() as u64 + 1;
    let depth = if tier == "thorough" { 3 } else { 2 };
    let total = n.pow(depth) * SHAPES.len() as u64;
    let (acc, complete) = par("leaks", total, secs, |i, acc, now| {
        let (mut k, shape) = (i / SHAPES.len() as u64, SHAPES[(i % SHAPES.len() as u64) as usize]);
        let mut list = vec![];
        for _ in 0..depth {
            if k % n > 0 {
                list.push(names[(k % n - 1) as usize]);
            }
            k /= n;
        }
        let list = list.join(" , ");
        let prog = format!("#[enum_derive({list})] {shape}");
        now.set(&prog);
        acc.states += 1;
        acc.transitions += depth as u64;
        let Out::Ok(ts) = derive(&list, shape) else {
            acc.rejected += 1;
            return;
        };
        acc.accepted += 1;
        let x = match parse_out(&ts) {
            Err(m) => return acc.bad(prog, m),
            Ok(x) => x,
        };
        if x.item.ident != "E" {
            return acc.bad(prog, format!("the enum is now called {}", x.item.ident));
        }
        for it in &x.items {
            // an implementation for anything but the enum would be visible everywhere
            if let Ok(i) = parse_str::<ItemImpl>(it) {
                let own = matches!(&*i.self_ty, Type::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].ident == "E");
                if !own {
                    acc.bad(prog.clone(), format!("implementation for another type: {}", i.self_ty.to_token_stream()));
                }
            }
        }
    });
    println!("{}", acc.json("leaks of enum_derive", complete, t0.elapsed().as_secs_f64()));

    use crate::gen::{generate, Profile::*};
    let fuel = if tier == "thorough" { 2 } else { 1 };
    let profiles = [Branch, Loop, Return, Try, Diverge, Nested, Marker, Multi];
    let t0 = std::time::Instant::now();
    let (acc, complete) = par("leaks of auto_enum", profiles.len() as u64, secs, |i, acc, now| {
        let t = std::time::Instant::now();
        let p = profiles[i as usize];
        let fuel = match p {
            Multi => fuel - 1,
            Try => fuel + 1,
            _ => fuel,
        };
        let mut ch = crate::chooser::Chooser::default();
        loop {
            if let Some(pr) = generate(&mut ch, p, fuel) {
                now.set(&pr.src);
                acc.states += 1;
                match crate::auto::leak(&pr) {
                    None => acc.rejected += 1,
                    Some(Ok(k)) => {
                        acc.accepted += 1;
                        acc.transitions += k as u64;
                    }
                    Some(Err(w)) => acc.bad(pr.src, w),
                }
            }
            if !ch.advance() || t.elapsed().as_secs() > secs {
                break;
            }
        }
    });
    println!("{}", acc.json("leaks of auto_enum", complete, t0.elapsed().as_secs_f64()));
}
