//! C10: trait inference. All types of a type grammar around `impl Trait`, all argument lists, on the
//! real macro in process; oracle: the documented list of traits.
use std::collections::BTreeSet;

use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::{visit::Visit, *};

use crate::{
    auto::{attr_args, call_auto_enum, Exp},
    chooser, gen,
    par::{par, Acc},
};

/// bounds the inference knows, by spelling (a generic argument list does not matter)
pub const KNOWN: &[&str] = &[
    "Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "AsRef<[u8]>", "AsMut<[u8]>", "Debug", "fmt::Debug", "Display", "fmt::Display",
    "fmt::Binary", "fmt::LowerExp", "fmt::LowerHex", "fmt::Octal", "fmt::Pointer", "fmt::UpperExp", "fmt::UpperHex", "fmt::Write",
    "Iterator<Item = u8>", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend<u8>", "Deref<Target = u8>",
    "DerefMut", "Index<usize>", "IndexMut<usize>", "RangeBounds<u8>", "Fn(u8) -> u8", "FnMut()", "FnOnce(u8)", "Coroutine<Yield = u8>", "Future<Output = ()>",
    "Read", "io::Read", "BufRead", "io::BufRead", "Write", "io::Write", "Seek", "io::Seek", "Error", "error::Error",
];

const OTHER: &[&str] = &["Send", "'a", "?Sized", "my::Thing", "Iterator2", "Foo<u8>", "Unpin", "fmt::Iterator", "ops::Index", "my::Debug"];

/// the name a bound is derived under
fn name(b: &str) -> String {
    let end = b.find(['<', '(']).unwrap_or(b.len());
    b[..end].trim().replace(' ', "")
}

#[derive(Default)]
struct Enums(Vec<ItemEnum>);
impl<'a> Visit<'a> for Enums {
    fn visit_item_enum(&mut self, e: &'a ItemEnum) {
        self.0.push(e.clone());
        visit::visit_item_enum(self, e);
    }
}

fn derived(ts: &TokenStream) -> std::result::Result<Vec<Vec<String>>, String> {
    let b = parse::Parser::parse2(Block::parse_within, ts.clone()).map_err(|e| format!("output is not valid syntax: {e}"))?;
    let mut v = Enums::default();
    for s in &b {
        v.visit_stmt(s);
    }
    Ok(v.0
        .iter()
        .map(|e| {
            e.attrs
                .iter()
                .filter(|a| a.path().segments.last().is_some_and(|s| s.ident == "enum_derive"))
                .flat_map(|a| attr_args(a).to_string().split(',').map(|s| s.replace(' ', "")).collect::<Vec<_>>())
                .filter(|s| !s.is_empty())
                .collect()
        })
        .collect())
}

/// does the type, written as tokens, still appear in the let?
fn let_type(ts: &TokenStream) -> Option<String> {
    struct L(Option<String>);
    impl<'a> Visit<'a> for L {
        fn visit_local(&mut self, l: &'a Local) {
            if let Pat::Type(t) = &l.pat {
                self.0 = Some(t.ty.to_token_stream().to_string());
            }
        }
    }
    let b = parse::Parser::parse2(Block::parse_within, ts.clone()).ok()?;
    let mut l = L(None);
    for s in &b {
        if let Stmt::Local(x) = s {
            l.visit_local(x);
        }
    }
    l.0
}

/// one `impl` type inside a wrapper; `@` is the hole
const WRAPS: &[&str] = &[
    "@", "Option<@>", "(@, u8)", "Result<u8, @>", "[@; 2]", "Box<(u8, Option<@>)>", "&'static @", "impl Foo<T = @>", "Box<dyn Fn() -> @>", "impl Fn() -> @",
    "fn(u8) -> @", "std::option::Option<@>", "*const @", "(@)", "impl Iterator<Item = @>", "Result<@, u8>", "core::result::Result<u8, @>", "[@]", "Foo::<@>",
];
/// what the wrappers themselves contribute
fn wrap_adds(w: &str) -> Option<&'static str> {
    if w.starts_with("impl Fn(") {
        Some("Fn")
    } else if w.starts_with("impl Iterator") {
        Some("Iterator")
    } else {
        None
    }
}

struct Case {
    ty: String,
    /// supported bounds named by the type
    known: Vec<String>,
}

fn case(w: &str, bounds: &[&str]) -> Case {
    // a `+` list below a reference, `dyn` or arrow needs parentheses
    let b = format!("impl {}", bounds.join(" + "));
    let b = if bounds.len() > 1 && (w.starts_with('&') || w.starts_with('*') || w.contains("-> @")) { format!("({b})") } else { b };
    let mut known: Vec<String> = bounds.iter().filter(|b| KNOWN.contains(b)).map(|b| name(b)).collect();
    known.extend(wrap_adds(w).map(String::from));
    Case { ty: w.replace('@', &b), known }
}

const ARGS: &[&str] = &["", "Iterator", "Debug", "Clone, fmt::Debug", "io::Read, Iterator", "marker = m", "my::Own", "Send"];

fn bodies(k: usize) -> (&'static str, &'static str) {
    match k {
        0 => ("if c { a } else { b }", "if"),
        _ => ("match c { 0 => a, 1 => b, _ => d }", "match"),
    }
}

fn check(c: &Case, args: &str, on_let: bool, body: usize, on: bool, acc: &mut Acc) {
    let (body, _) = bodies(body);
    let src = if on_let { format!("let x: {} = {body};", c.ty) } else { format!("fn f() -> {} {{ {body} }}", c.ty) };
    let prog = format!("#[auto_enum({args})] {src}{}", if on { "" } else { " (type_analysis off)" });
    acc.states += 1;
    acc.transitions += 1 + c.known.len() as u64;
    let Ok(input) = src.parse::<TokenStream>() else { return };
    let Ok(stmt) = parse2::<Stmt>(input.clone()) else { return };
    let explicit: Vec<String> =
        args.split(',').map(|s| s.replace(' ', "")).filter(|s| !s.is_empty() && !s.starts_with("marker=")).collect();
    let mut want: BTreeSet<String> = explicit.iter().cloned().collect();
    if on {
        want.extend(c.known.iter().cloned());
    }
    // re-printed: the macro parses what it is given, so token spacing is not preserved
    let ty0 = stmt.to_token_stream().to_string();
    let out = match call_auto_enum(args.parse().unwrap(), input) {
        Err(Exp::Panic(m)) => return acc.bad(prog, format!("macro panicked: {m}")),
        Err(e) => return acc.bad(prog, format!("rejected: {e:?}")),
        Ok(o) => o,
    };
    acc.accepted += 1;
    let enums = match derived(&out) {
        Err(m) => return acc.bad(prog, m),
        Ok(e) => e,
    };
    if want.is_empty() {
        if !enums.is_empty() || out.to_string() != ty0 {
            acc.bad(prog, format!("nothing is annotated or inferred, but the output differs: {out}"));
        }
        return;
    }
    if enums.len() != 1 {
        return acc.bad(prog, format!("{} enums generated", enums.len()));
    }
    let mut have = enums[0].clone();
    have.sort();
    let want_v: Vec<String> = want.into_iter().collect();
    if have != want_v {
        return acc.bad(prog, format!("derived {have:?}, expected exactly {want_v:?}"));
    }
    if on_let {
        let kept = let_type(&out);
        let expect = if on && !c.known.is_empty() { None } else { Some(parse_str::<Type>(&c.ty).unwrap().to_token_stream().to_string()) };
        if kept != expect {
            return acc.bad(prog, format!("type of the let is {kept:?}, expected {expect:?}"));
        }
    } else if !out.to_string().contains(&parse_str::<Type>(&c.ty).unwrap().to_token_stream().to_string()) {
        return acc.bad(prog, "the return type was changed");
    }
    if acc.samples.len() < 1 {
        acc.samples.push(prog);
    }
}

pub fn c10(tier: &str, secs: u64) {
    let on = cfg!(feature = "type_analysis");
    let mut all: Vec<&str> = KNOWN.to_vec();
    all.extend(OTHER);
    let n = all.len();
    let run = |name: &str, total: usize, pick: &(dyn Fn(usize) -> Option<(Case, usize, bool, usize)> + Sync)| {
        let t0 = std::time::Instant::now();
        let (acc, complete) = par(name, total as u64, secs, |i, acc, now| {
            if let Some((c, a, l, b)) = pick(i as usize) {
                now.set(&c.ty);
                check(&c, ARGS[a], l, b, on, acc);
            }
        });
        println!("{}", acc.json(name, complete, t0.elapsed().as_secs_f64()));
    };
    let suffix = if on { "" } else { " (type_analysis off)" };
    // one bound, everywhere
    run(&format!("infer: bound x wrapper x arguments x position x body{suffix}"), n * WRAPS.len() * ARGS.len() * 4, &|mut i| {
        let mut d = |k: usize| { let x = i % k; i /= k; x };
        let (b, w, a, l, y) = (d(n), d(WRAPS.len()), d(ARGS.len()), d(2), d(2));
        Some((case(WRAPS[w], &[all[b]]), a, l == 1, y))
    });
    // ordered pairs of bounds of one impl type
    let deep = if tier == "thorough" { WRAPS.len() } else { 3 };
    run(&format!("infer: two bounds{suffix}"), n * n * deep * ARGS.len() * 2, &|mut i| {
        let mut d = |k: usize| { let x = i % k; i /= k; x };
        let (b, b2, w, a, l) = (d(n), d(n), d(deep), d(ARGS.len()), d(2));
        Some((case(WRAPS[w], &[all[b], all[b2]]), a, l == 1, 0))
    });
    // two impl types in one type
    let two = ["(@, %)", "Result<@, %>", "impl Iterator<Item = (@, %)>", "Foo<@, Option<%>>", "impl Fn(u8) -> Result<@, %>"];
    let few = if tier == "thorough" { n } else { 24 };
    let few_all: Vec<&str> = if tier == "thorough" {
        all.clone()
    } else {
        let mut v: Vec<&str> = all.iter().step_by(3).copied().collect();
        v.extend(["Debug", "fmt::Debug", "Send", "my::Debug"]);
        v.sort();
        v.dedup();
        v.truncate(few);
        v
    };
    let f = few_all.len();
    run(&format!("infer: two impl types{suffix}"), f * f * two.len() * ARGS.len() * 2, &|mut i| {
        let mut d = |k: usize| { let x = i % k; i /= k; x };
        let (b, b2, w, a, l) = (d(f), d(f), d(two.len()), d(ARGS.len()), d(2));
        let (x, y) = (few_all[b], few_all[b2]);
        let mut known: Vec<String> = [x, y].iter().filter(|b| KNOWN.contains(b)).map(|b| self::name(b)).collect();
        known.extend(wrap_adds(two[w]).map(String::from));
        Some((Case { ty: two[w].replace('@', &format!("impl {x}")).replace('%', &format!("impl {y}")), known }, a, l == 1, 0))
    });
    if tier == "thorough" {
        let m = 30.min(n);
        run(&format!("infer: three bounds{suffix}"), m * m * m * 2 * 2, &|mut i| {
            let mut d = |k: usize| { let x = i % k; i /= k; x };
            let (b, b2, b3, l, a) = (d(m), d(m), d(m), d(2), d(2));
            let v: Vec<&str> = [b, b2, b3].iter().map(|x| all[(x * 2) % n]).collect();
            Some((case("@", &v), a, l == 1, 0))
        });
    }
    // types without impl Trait: nothing inferred, types kept
    let plain = ["u8", "Vec<Debug>", "Box<dyn Iterator<Item = u8>>", "&'static dyn Debug", "dyn Clone", "<T as Iterator>::Item", "fn() -> Debug", "Option<Iterator>", "[u8; 2]", "_", "!", "Iterator", "(Debug, Clone)"];
    run(&format!("infer: types without impl Trait{suffix}"), plain.len() * ARGS.len() * 4, &|mut i| {
        let mut d = |k: usize| { let x = i % k; i /= k; x };
        let (p, a, l, b) = (d(plain.len()), d(ARGS.len()), d(2), d(2));
        Some((Case { ty: plain[p].into(), known: vec![] }, a, l == 1, b))
    });
    if on {
        same_as_explicit(tier, secs);
    }
}

/// Every program of the grammars whose traits could be inferred expands to the same thing with
/// `#[auto_enum]` as with the explicit list.
fn same_as_explicit(tier: &str, secs: u64) {
    use gen::Profile::*;
    for (p, q, t) in [(Branch, 2, 3), (Loop, 1, 1), (Return, 1, 2), (Diverge, 1, 2), (Nested, 2, 3), (Marker, 4, 6), (Multi, 1, 1), (Mix, 1, 2)] {
        let fuel = if tier == "thorough" { t } else { q };
        let mut v: Vec<(String, bool)> = vec![];
        let mut ch = chooser::Chooser::default();
        loop {
            if let Some(pr) = gen::generate(&mut ch, p, fuel) {
                v.push((pr.src, pr.reject));
            }
            if !ch.advance() {
                break;
            }
        }
        let t0 = std::time::Instant::now();
        let name = format!("infer: bare #[auto_enum] on programs of {p:?}, size {fuel}");
        let (acc, complete) = par(&name, v.len() as u64, secs, |i, acc, now| {
            let (src, reject) = &v[i as usize];
            now.set(src);
            let Ok(f) = parse_str::<File>(src) else { return };
            let mut sites = Sites::default();
            sites.visit_file(&f);
            for (args, item, ty_let) in sites.0 {
                acc.states += 1;
                acc.transitions += 1;
                let args_s = args.to_string().replace(' ', "");
                let bare = match &*args_s {
                    "Debug" => "",
                    "Debug,marker=mk" | "marker=mk,Debug" => "marker = mk",
                    _ => continue,
                };
                let explicit = call_auto_enum(args.clone(), item.clone());
                // the let gets its type from the annotation
                let inferred = call_auto_enum(bare.parse().unwrap(), ty_let.clone().unwrap_or(item.clone()));
                let prog = format!("#[auto_enum({bare})] {}", ty_let.as_ref().unwrap_or(&item));
                match (explicit, inferred) {
                    (Ok(a), Ok(b)) => {
                        acc.accepted += 1;
                        if hash_free(&a) != hash_free(&b) {
                            acc.bad(prog, format!("inferred: {b}; explicit: {a}"));
                        }
                    }
                    (_, Err(Exp::Panic(m))) => acc.bad(prog, format!("macro panicked: {m}")),
                    (Ok(_), Err(e)) => acc.bad(prog, format!("rejected with inferred traits only: {e:?}")),
                    // with inferred traits a function without branches is left alone, not rejected
                    (Err(_), _) => {
                        acc.rejected += 1;
                        let _ = reject;
                    }
                }
                if acc.samples.is_empty() {
                    acc.samples.push(prog_sample(&item));
                }
            }
        });
        println!("{}", acc.json(&name, complete, t0.elapsed().as_secs_f64()));
    }
}

fn prog_sample(ts: &TokenStream) -> String {
    format!("#[auto_enum] {ts}")
}

/// the names of the generated enums depend on the annotated tokens: number them
fn hash_free(ts: &TokenStream) -> String {
    let mut v = Enums::default();
    if let Ok(b) = parse::Parser::parse2(Block::parse_within, ts.clone()) {
        for s in &b {
            v.visit_stmt(s);
        }
    }
    let mut names: Vec<String> = v.0.iter().map(|e| e.ident.to_string()).filter(|n| n.len() > 4).collect();
    names.dedup();
    let mut s = ts.to_string();
    for (i, n) in names.iter().enumerate() {
        s = s.replace(n.as_str(), &format!("@{i}"));
    }
    s
}

/// annotated functions returning `impl Debug` and annotated lets: (arguments, tokens, tokens of the
/// let with the type `impl Debug`)
#[derive(Default)]
struct Sites(Vec<(TokenStream, TokenStream, Option<TokenStream>)>);
impl<'a> Visit<'a> for Sites {
    fn visit_item_fn(&mut self, f: &'a ItemFn) {
        if let Some(k) = f.attrs.iter().position(|a| a.path().is_ident("auto_enum")) {
            if f.sig.output.to_token_stream().to_string() == "-> impl Debug" {
                let mut g = f.clone();
                let a = g.attrs.remove(k);
                self.0.push((attr_args(&a), g.to_token_stream(), None));
            }
        }
        visit::visit_item_fn(self, f);
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(k) = l.attrs.iter().position(|a| a.path().is_ident("auto_enum")) {
            // the value of an annotated closure is not what its own returns and branches yield
            let clo = l.init.as_ref().is_some_and(|i| matches!(&*i.expr, Expr::Closure(_)));
            if !clo {
                let mut g = l.clone();
                let a = g.attrs.remove(k);
                let plain = g.to_token_stream();
                let p = g.pat.clone();
                g.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: parse_quote!(impl Debug) });
                self.0.push((attr_args(&a), plain, Some(g.to_token_stream())));
            }
        }
        visit::visit_local(self, l);
    }
}
