"""C25: the expansions under hostile surroundings.

Part 1: every documented trait derived inside modules whose names are all taken, in every edition.
Part 2: the grammar's annotated programs, in such modules, compiled by rustc; every model execution replayed.
Part 3: every derivable trait of a no_std configuration in a no_std user crate.
Part 4: what the expansions add to the scope (in process).
"""
import itertools, json, os, re
from .common import *
from . import inproc, programs, rustcm, shapes, traits
from .shapes import Model, catalog, group

EDITIONS = ("2018", "2021", "2024")
PRELUDE_TYPES = ["Option", "Result", "Box", "Vec", "String"]
VALUES = ["Some", "None", "Ok", "Err", "drop", "size_of", "align_of"]
PRELUDE_TRAITS = ["Send", "Sync", "Sized", "Copy", "Drop", "Fn", "FnMut", "FnOnce", "AsyncFn", "AsyncFnMut", "AsyncFnOnce", "Unpin", "Clone",
                  "PartialEq", "PartialOrd", "Eq", "Ord", "AsRef", "AsMut", "Into", "From", "TryFrom", "TryInto", "Default", "Iterator", "IntoIterator",
                  "Extend", "DoubleEndedIterator", "ExactSizeIterator", "FromIterator", "ToOwned", "ToString", "Future", "IntoFuture", "Hash", "Debug"]
OTHER = ["Pin", "Context", "Poll", "PhantomData", "PhantomPinned", "Ordering", "Formatter", "Arguments", "Error", "Read", "Write", "BufRead", "Seek",
         "SeekFrom", "IoSlice", "IoSliceMut", "Deref", "DerefMut", "Index", "IndexMut", "RangeBounds", "Bound", "Coroutine", "CoroutineState",
         "FusedIterator", "TrustedLen", "Stream", "Sink", "AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncBufRead", "ReadBuf", "ParallelIterator",
         "IndexedParallelIterator", "ParallelExtend", "UnindexedConsumer", "Consumer", "ProducerCallback", "Serialize", "Serializer", "Body", "Frame",
         "SizeHint", "Async", "AsyncSink", "StartSend", "Display", "Binary", "LowerExp", "LowerHex", "Octal", "Pointer", "UpperExp", "UpperHex",
         "Transpose", "MustNotImplDrop", "Never", "Either", "Data", "Item", "Output", "Target", "This", "Enum", "Self_", "Struct", "Trait",
         "__Variant0", "__Variant1", "__Enum", "__T", "__E0", "__C", "__CB", "__B", "__F", "__P", "__I", "__S", "__R", "__U", "__Idx", "__D"]
MODULES = ["core", "std", "alloc", "futures", "tokio", "rayon", "serde", "http_body", "auto_enums", "io", "fmt", "ops", "iter", "option", "result",
           "marker", "pin", "task", "future", "mem", "convert", "error", "derive_utils"]
MACROS = ["panic", "unreachable", "todo", "unimplemented", "assert", "assert_eq", "debug_assert", "vec", "format", "write", "matches", "print", "println",
          "concat", "stringify", "compile_error", "include", "cfg", "dbg", "env", "line", "ready", "pin"]
PRIMITIVES = ["usize", "u8", "u64", "bool", "str", "char", "isize", "u16", "i32", "f64"]
# names of methods that code generated for an enum might call on a field, a Pin, an Option, a Result
METHODS = ["map", "map_err", "unwrap", "ok", "err", "get_mut", "get_ref", "get_unchecked_mut", "map_unchecked_mut", "as_mut", "as_ref", "as_pin_mut", "into_iter",
           "iter", "next", "next_back", "size_hint", "len", "poll", "poll_next", "read", "write", "flush", "seek", "deref", "deref_mut", "index", "fmt", "source",
           "into", "from", "clone", "borrow", "call", "serialize", "drive", "transpose", "enum_fmt", "count", "last", "nth", "fold", "try_fold", "find", "new", "new_unchecked",
           "as_", "is_end_stream", "poll_frame", "to_string", "eq", "cmp", "description", "cause", "extend", "is_empty", "consume", "write_str", "resume", "branch", "from_residual"]


def decls(names, kind):
    return " ".join({"struct": f"pub struct {n};" if not n.startswith("__") else f"pub struct {n} {{}}", "trait": f"pub trait {n} {{}}", "mod": f"pub mod {n} {{}}", "type": f"pub type {n} = ();",
                     "fn": f"pub fn {n}() {{}}"}[kind] for n in names)


def macros(names):
    return "macro_rules! __hostile { ($($t:tt)*) => { compile_error!(\"user macro\") } } " + " ".join(f"pub(crate) use __hostile as {n};" for n in names)


TRAITS_ALL = sorted(set(PRELUDE_TRAITS + OTHER) - set(VALUES))
EVIL = ("pub trait Evil { " + " ".join(f"fn {m}(self) -> ! where Self: ::core::marker::Sized {{ loop {{}} }}" for m in METHODS) + " } "
        "impl<EvilT: ?::core::marker::Sized> Evil for EvilT {}")
EVIL_REF = EVIL.replace("(self)", "(&self)").replace("Evil", "Evil2").replace("EvilT", "EvilT2")

# context -> what precedes the enum in its module
CONTEXTS = {
    "no_implicit_prelude": "#![no_implicit_prelude]",
    "types": decls(PRELUDE_TYPES + VALUES + TRAITS_ALL, "struct"),
    "traits": decls(TRAITS_ALL + PRELUDE_TYPES, "trait"),
    "aliases": decls(TRAITS_ALL + PRELUDE_TYPES, "type"),
    "functions": decls(VALUES + PRELUDE_TYPES + TRAITS_ALL + ["x", "val", "err", "this", "v", "f", "self_", "buf", "cx", "state"], "fn"),
    "modules": decls(MODULES, "mod"),
    "modules and types": decls(MODULES, "mod") + decls([n for n in PRELUDE_TYPES + VALUES + TRAITS_ALL if n not in MODULES], "struct"),
    "macros": macros(MACROS),
    "methods": EVIL,
    "methods by reference": EVIL_REF,
    "primitives": " ".join(f"#[allow(non_camel_case_types)] pub struct {n};" for n in PRIMITIVES),
    "nothing": "",
    "two in one scope": "@two",
}
# where the enum stands inside the module
PLACES = {
    "module": "{}",
    "function body": "pub fn place() {{ {} }}",
    "const block": "pub const PLACE: () = {{ {} }};",
    "method body": "pub struct Place; impl Place {{ pub fn place<Q>(&self, option: Q) {{ fn Some() {{}} {} }} }}",
    "closure": "pub fn place() {{ let _ = || {{ {} }}; }}",
    "array length": "pub fn place(_: [u8; {{ {} 3 }}]) {{}}",
}
ENUM_NAMES = ["Option", "Result", "Some", "None", "Ok", "Err", "Box", "Vec", "Pin", "Context", "Poll", "Iterator", "Send", "Sized", "Unpin", "Drop",
              "core", "std", "futures", "usize_", "Self_", "MustNotImplDrop", "Item", "Error", "x", "this", "Enum", "T", "__Enum0"]
VARIANT_NAMES = ["Some", "None", "Ok", "Err", "Option", "Result", "Pin", "Self_", "x", "self_", "core", "Item", "Output", "Error", "Iterator", "next", "E", "A", "Poll", "Ready", "Pending"]


def clean(m, n):
    out = ["pub mod clean { pub struct G(u8); pub struct H(u8); pub struct Bx<T: ?Sized>(::core::marker::PhantomData<fn() -> T>);"]
    for ty, gen in (("G", ""), ("H", ""), ("Bx<ZT>", "<ZT: ?Sized>")):
        out.append(m.mock(n, ty, gen))
    out.append("}")
    return " ".join(out)


def enums(m, n, attr="::auto_enums::enum_derive", e="E", v=("V0", "V1")):
    a = f"#[{attr}({m.listing(n)})]"
    gen = f"{a} pub enum {e}<A, B> {{ {v[0]}(A), {v[1]}(B) }}"
    if n == "Transpose":
        return [gen]
    return [gen,
            f"{a} pub enum {e}C {{ {v[0]}(crate::@::clean::G), {v[1]}(crate::@::clean::H) }}",
            f"{a} pub enum {e}M<A> {{ {v[0]}(A), {v[1]}(crate::@::clean::Bx<A>) }}"]


def asserts(m, n, e="E"):
    out = []
    for t in m.closure(n):
        if t not in traits.IMPL:
            continue
        for ty in (f"{e}<clean::G, clean::H>", f"{e}C", f"{e}M<clean::G>"):
            out.append(f"const _: () = assert!(impls!(hostile::{ty}: {traits.bound(t)}), \"{ty}: {t}\");")
    return " ".join(out)


class Cases:
    def __init__(self):
        self.cases, self.grp = [], {}

    def add(self, i, text, g):
        self.cases.append((i, text))
        self.grp[i] = g


def site(i, e):
    """the place in the macro that several cases fail at, if all errors of this case point there"""
    n, ctx, _ = i.split("|")
    es = e.split(" ; ")
    if n == "rayon::ParallelExtend" and all(re.search(r"trait.* `Send`|cannot be sent between threads|^E0080", x) for x in es) and not es[0].startswith("E0080"):
        return "rayon::ParallelExtend: unqualified `Send`"
    if ctx == "enum MustNotImplDrop" and es[0].startswith("E0782 expected a type, found a trait"):
        return "an enum named MustNotImplDrop that derives a pinned trait"
    if ctx == "primitives" and all(re.match(r"E0053 method `\w+` has an incompatible type for trait|E0308 mismatched types|E0271 expected `__\w` to return `bool`", x) for x in es):
        return f"{n}: unqualified names of primitive types"


def part1(c, m, out):
    args = rustcm.prepare(sorted({group(n) for n in m.names}))
    total = 0
    for ed in EDITIONS:
        cs = Cases()
        for n in m.names + ["Transpose"]:
            g = group(n) if n in traits.IMPL else ""
            mk = clean(m, n) if n in traits.IMPL else clean(m, "Iterator")
            for ctx, head in CONTEXTS.items():
                if ctx == "primitives" and ed != "2021":
                    continue
                if c.quick and ed != "2021" and ctx in ("nothing", "aliases", "methods by reference", "modules", "macros"):
                    continue
                es = " ".join(enums(m, n))
                if head == "@two":
                    head = " ".join(enums(m, n, e="F"))
                cs.add(f"{n}|{ctx}|{ed}", mk + f"\npub mod hostile {{ {head} {es} }}\n" + (asserts(m, n) if n in traits.IMPL else ""), g)
            if ed != "2021":
                continue
            for pl, t in PLACES.items():
                body = enums(m, n)[0]
                cs.add(f"{n}|in {pl}|{ed}", mk + f"\npub mod hostile {{ {t.format(body)} }}", g)
            for e in ENUM_NAMES:
                es = " ".join(enums(m, n, e=e))
                cs.add(f"{n}|enum {e}|{ed}", mk + f"\npub mod hostile {{ #![no_implicit_prelude] {es} }}\n" + (asserts(m, n, e) if n in traits.IMPL else ""), g)
            vs = list(zip(VARIANT_NAMES, VARIANT_NAMES[1:] + VARIANT_NAMES[:1]))
            for v in vs:
                es = " ".join(enums(m, n, v=v))
                cs.add(f"{n}|variants {' '.join(v)}|{ed}", mk + f"\npub mod hostile {{ {es} }}\n" + (asserts(m, n) if n in traits.IMPL else ""), g)
            if not c.quick:
                for k, names in (("struct", PRELUDE_TYPES + VALUES + TRAITS_ALL), ("trait", TRAITS_ALL), ("mod", MODULES), ("fn", TRAITS_ALL)):
                    for x in names:
                        es = " ".join(enums(m, n))
                        cs.add(f"{n}|{k} {x}|{ed}", mk + f"\npub mod hostile {{ {decls([x], k)} {es} }}", g)
        texts = []
        grp = cs.grp
        # the path of the mock types
        cs.cases = [(i, t.replace("crate::@::", "crate::@M@::")) for i, t in cs.cases]
        k, _ = shapes.run_cases(c, f"hostile modules, edition {ed}", cs.cases, grp, args, out,
                                lambda i: "enum_derive({}) in surroundings: {} (edition {})".format(*i.split("|")),
                                prelude=shapes.PRELUDE, edition=ed, key=site)
        total += k
        c.sample({"case": cs.cases[1][0], "program": cs.cases[1][1][-300:]})
    c.add(total, total, total)


# ---- part 2

# profile -> fuel: (quick, thorough)
PROFILES = {"branch": (1, 2), "loop": (0, 1), "return": (0, 1), "try": (1, 2), "diverge": (0, 1), "nested": (1, 1), "marker": (1, 2), "multi": (0, 0)}
HOSTILE = ("pub mod hostile { use super::__hostile_macro; "
           + decls([n for n in PRELUDE_TYPES + VALUES + TRAITS_ALL if n not in ("Debug",)], "struct")
           + decls([n for n in MODULES], "mod") + decls(["val", "err", "ok", "x_", "other_", "__x"], "fn")
           + " ".join(f"pub(crate) use __hostile_macro as {n};" for n in MACROS if n != "pin") + EVIL + " }")
HOSTILE_MACRO = "macro_rules! __hostile_macro { ($($t:tt)*) => { compile_error!(\"user macro\") } } pub(crate) use __hostile_macro;"


def qualify(s):
    """the user's own uses of prelude names, so that they keep their meaning"""
    s = re.sub(r"(?<![:\w])Result<", "::core::result::Result<", s)
    s = re.sub(r"(?<![:\w])core::", "::core::", s)
    s = re.sub(r"(?<![:\w])Option<", "::core::option::Option<", s)
    s = re.sub(r"(?<![:\w])(Ok|Err)(?=\(|::<)", r"::core::result::Result::\1", s)
    s = re.sub(r"(?<![:\w])(Some)(?=\()", r"::core::option::Option::\1", s)
    s = re.sub(r"(?<![:\w])None\b", r"::core::option::Option::None", s)
    s = re.sub(r"(?<=: )Clone\b", "::core::clone::Clone", s)
    s = re.sub(r"(?<![:\w])panic!", "::core::panic!", s)
    return s


RENAME = {"x": "err", "y": "val", "_y": "_val", "z": "ok", "v": "e", "s": "__Enum", "q": "__Variant0", "x1": "val1", "x2": "x", "x3": "__Variant1", "a1": "self_",
          "f": "new", "main_": "main_"}


def rename(s):
    return re.sub(r"(?<!')\b[A-Za-z_]\w*\b", lambda m: RENAME.get(m.group(0), m.group(0)), s)


NO_STD = "#![no_std]\n" + rustcm.FEATURES


def part3(c, m, out):
    """derives in a no_std crate, with the macro built with and without its feature std"""
    args = rustcm.prepare(["", "ns"])
    n = 0
    for g, what in (("", "feature std on"), ("ns", "feature std off")):
        cs = Cases()
        for t in m.names + ["Transpose"]:
            if t != "Transpose" and (group(t) != "" or t.startswith("tokio") or any("::std" in traits.IMPL[x][2] for x in m.closure(t))):
                continue
            mk = clean(m, t if t in traits.IMPL else "Iterator")
            for ctx in ("nothing", "no_implicit_prelude", "types", "modules"):
                i = f"{t}|no_std crate, {what}, {ctx}|2021"
                es = " ".join(enums(m, t)).replace("crate::@::", "crate::@M@::")
                cs.add(i, mk + f"\npub mod hostile {{ {CONTEXTS[ctx]} {es} }}\n" + (asserts(m, t) if t in traits.IMPL else ""), g)
        k, _ = shapes.run_cases(c, f"no_std crate, {what}", cs.cases, cs.grp, args, out,
                                lambda i: "enum_derive({}) in surroundings: {} (edition {})".format(*i.split("|")),
                                prelude=shapes.PRELUDE, key=site, head=NO_STD)
        n += k
    c.add(n, n, n)


# context -> (edition, inner attribute, imports, rewriting)
SURROUND = {
    "all names taken": ("2021", "", "use crate::hostile::*; use ::core::fmt::Debug;", qualify),
    "no_implicit_prelude": ("2021", "#![no_implicit_prelude]", "", qualify),
    "similar local names": ("2021", "", "", rename),
    "no_std crate": ("2021", "", "", qualify),
    "all names taken, 2018": ("2018", "", "use crate::hostile::*; use ::core::fmt::Debug;", lambda s: qualify(rename(s))),
    "all names taken, 2024": ("2024", "#![no_implicit_prelude]", "use crate::hostile::*; use ::core::fmt::Debug;", lambda s: qualify(rename(s))),
}


def part2(c, exe, rt):
    deps, rtlib, so = rt
    jobs = []
    for prof, (q, t) in PROFILES.items():
        fuel = q if c.quick else t
        d = fresh(f"c25_{prof}")
        p = run([exe, "emit", prof, "--fuel", str(fuel), "--horizon", "10", "--out", d, "--per", "400"], timeout=600, check=True)
        info = json.loads(p.stdout.strip().splitlines()[-1])
        for ctx in SURROUND:
            for i in range(info["shards"]):
                jobs.append((prof, d, i, ctx))

    def one(job):
        prof, d, i, ctx = job
        ed, inner, imports, f = SURROUND[ctx]
        lines = open(os.path.join(d, f"s{i}.rs")).read().split("\n")
        mods = []
        for l in lines:
            m = re.match(r"mod (p\d+) \{ use super::\*; (.*) pub fn go\(\) \{ main_\(\) \} \}$", l)
            if m:
                mods.append((m.group(1), m.group(2)))
        if not mods:
            return None
        ns = ctx == "no_std crate"
        src = ("#![no_std]" if ns else "") + "#![allow(warnings)]\n#![feature(stmt_expr_attributes, proc_macro_hygiene)]\n" + ("extern crate std as not_std;" if ns else "") + "\nuse auto_enums::{auto_enum, enum_derive}; use rt::*; use core::fmt::Debug;\n"
        src += HOSTILE_MACRO + "\n" + HOSTILE + "\n"
        head = src.count("\n")
        src += "\n".join(f"mod {n} {{ {inner} use super::*; {imports} {f(b)} pub fn go() {{ main_() }} }}" for n, b in mods)
        src += "\nstatic TABLE: &[fn()] = &[" + ",".join(f"{n}::go" for n, _ in mods) + "];\nfn main() { rt::main_with(TABLE) }\n"
        b = os.path.join(d, re.sub(r"\W+", "_", ctx) + f"_{i}")
        open(b + ".rs", "w").write(src)
        q = run(["rustc", "--edition", ed, b + ".rs", "-L", "dependency=" + deps, "--extern", "rt=" + rtlib, "--extern", "auto_enums=" + so,
                 "-C", "debuginfo=0", "-o", b + ".bin", "--error-format=json"], timeout=900)
        viol = []
        if q.returncode:
            for l in q.stderr.splitlines():
                x = json.loads(l) if l.startswith("{") else {}
                if x.get("level") != "error":
                    continue
                for sp in x["spans"]:
                    while sp.get("expansion") and not sp["file_name"].endswith(os.path.basename(b) + ".rs"):
                        sp = sp["expansion"]["span"]
                    k = sp["line_start"] - head - 1
                    if 0 <= k < len(mods):
                        viol.append((f(mods[k][1]), "rustc rejects the expansion: " + x["message"]))
                        break
            if not viol:
                raise Broken(f"rustc failed on {b}.rs: {q.stderr[-2000:]}")
            os.unlink(b + ".rs")
            return ctx, prof, 0, viol
        q = run([b + ".bin", os.path.join(d, f"s{i}.exp")], timeout=600)
        n, done = 0, False
        bodies = dict(mods)
        for l in q.stdout.splitlines():
            w = l.split("\t")
            if w[0] == "DONE":
                n, done = int(w[1]), True
            elif w[0] in ("MISMATCH", "HANG"):
                viol.append((f(bodies["p" + w[1]]), f"{w[0]}: path [{w[2]}] " + " ".join(w[3:])))
        if not done and not viol:
            raise Broken(f"replay of {b} died: exit {q.returncode} {q.stderr[-500:]}")
        for x in (".rs", ".bin"):
            os.unlink(b + x)
        return ctx, prof, n, viol

    tot = {}
    for r in pmap(one, jobs):
        if r is None:
            continue
        ctx, prof, n, viol = r
        tot[ctx] = tot.get(ctx, 0) + n
        for k, w in viol[:5]:
            c.violation(f"{ctx}: {k}", why=w, profile=prof)
    for prof in PROFILES:
        shutil.rmtree(os.path.join(TARGET, f"c25_{prof}"), ignore_errors=True)
    c.part("annotated programs, model executions replayed", tot)
    c.add(sum(tot.values()), sum(tot.values()), sum(tot.values()))


def check(c):
    exe = programs.build_explorer()
    m = Model(catalog(exe))
    out = fresh("c25")
    inproc.explore(c, exe, "leaks")
    part1(c, m, out)
    part3(c, m, out)
    part2(c, exe, programs.build_rt())
