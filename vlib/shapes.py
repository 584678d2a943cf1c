"""C23: which traits an enum implements, for every vector of field kinds and every enum shape."""
import itertools, json, os
from .common import *
from . import programs, rustcm, traits

IMPLS = '''
pub mod probe {
    pub struct W<T: ?Sized>(pub ::core::marker::PhantomData<T>);
    pub trait No { const V: bool = false; }
    impl<T: ?Sized> No for W<T> {}
}
#[macro_export]
macro_rules! impls { ($t:ty : $($b:tt)*) => {{
    use crate::probe::No as _;
    struct W<T: ?Sized>(::core::marker::PhantomData<T>);
    trait No { const V: bool = false; }
    impl<T: ?Sized> No for T {}
    #[allow(dead_code)]
    impl<T: ?Sized + $($b)*> W<T> { const V: bool = true; }
    <W<$t>>::V
}}; }
pub trait Mk {}
impl<T: ?Sized + Sync> Mk for T {}
pub trait Pj { type Out; }
'''


def catalog(exe):
    return json.loads(run([exe, "catalog"], check=True).stdout)


class Model:
    """the documented traits and their dependencies"""

    def __init__(self, cat):
        self.by = {t["names"][0]: t for t in cat}
        self.names = [t["names"][0] for t in cat]

    def closure(self, n):
        """n, what the derive adds, and the supertraits a user must list"""
        out = [n]
        for x in out:
            for d in self.by[x]["deps"] + traits.SUPER.get(x, []):
                if d not in out:
                    out.append(d)
        return out

    def listing(self, n):
        """what is written in enum_derive(...)"""
        return " , ".join([n] + traits.SUPER.get(n, []))

    def mock(self, n, ty, gen="", where="", P="u8", O="u8", only_deps=False):
        return " ".join(traits.implement(x, ty, gen, where, P, O) for x in self.closure(n) if not (only_deps and x == n))


def group(n):
    return traits.IMPL[n][0]


def kinds(m, n):
    """[(letter, implements {trait: (P, O)})]"""
    cl = m.closure(n)
    ks = [("g", {x: ("u8", "u8") for x in cl}), ("b", {})]
    if any(traits.has_assoc(x) for x in cl):
        ks.append(("o", {x: ("u8", "u16") for x in cl}))
    if any(traits.has_arg(x) for x in cl):
        ks.append(("q", {x: ("u16", "u8") for x in cl}))
    if len(cl) > 1:
        ks.append(("d", {x: ("u8", "u8") for x in cl if x != n}))
    return ks


def implemented(m, n, t, row):
    """does E<row>: t<u8> follow from the fields?"""
    if any(t not in k for k in row):
        return False
    # the trait and everything below it (its associated types are part of the trait reference)
    below = m.closure(t)
    for k in row:
        if any(traits.has_arg(x) and k[x][0] != "u8" for x in below if x in k):
            return False
    for x in below:
        if traits.has_assoc(x) and len({k[x][1] for k in row if x in k}) > 1:
            return False
    return True


def table(m, n, depth, wide):
    """one case: all vectors of field kinds up to `depth` variants, plus single deviations in a wide enum"""
    ks = kinds(m, n)
    out, count = [], 0
    for l, im in ks:
        out.append(f"pub struct {l.upper()}x(u8);")
        for x, (P, O) in im.items():
            out.append(traits.implement(x, l.upper() + "x", P=P, O=O))
    rows = [r for k in range(1, depth + 1) for r in itertools.product(ks, repeat=k)]
    good = ks[0]
    for i in range(wide):
        for k in ks[1:]:
            rows.append(tuple([good] * i + [k] + [good] * (wide - 1 - i)))
    rows.append(tuple([good] * wide))
    for k in sorted({len(r) for r in rows}):
        ps = ", ".join(f"A{i}" for i in range(k))
        vs = ", ".join(f"V{i}(A{i})" for i in range(k))
        out.append(f"#[::auto_enums::enum_derive({m.listing(n)})] pub enum E{k}<{ps}> {{ {vs} }}")
    checks = []
    for r in rows:
        ty = f"E{len(r)}<{', '.join(k[0].upper() + 'x' for k in r)}>"
        for t in m.closure(n):
            want = implemented(m, n, t, [k[1] for k in r])
            checks.append((f"impls!({ty}: {traits.bound(t)})", want, f"{''.join(k[0] for k in r)}: {t}"))
            count += 1
    # one const per expectation, so that the error names it
    for e, w, d in checks:
        out.append(f"const _: () = assert!({'' if w else '!'}{e}, \"{d} should {'' if w else 'not '}be implemented\");")
    return "\n".join(out), count


# shapes: (name, declaration with the attribute placeholder, instantiation or None)
SHAPES = [
    ("concrete-one", "@ pub enum E { V0(G) }", "E"),
    ("concrete", "@ pub enum E { V0(G), V1(G2) }", "E"),
    ("concrete-same", "@ pub enum E { V0(G), V1(G) }", "E"),
    ("same-param-twice", "@ pub enum E<A> { V0(A), V1(A) }", "E<G>"),
    ("generic-then-concrete", "@ pub enum E<A> { V0(A), V1(G) }", "E<G2>"),
    ("concrete-then-generic", "@ pub enum E<A> { V0(G), V1(A) }", "E<G2>"),
    ("lifetime-only", "@ pub enum E<'a> { V0(L<'a, u8>), V1(L<'a, str>) }", "E<'static>"),
    ("lifetime-and-type", "@ pub enum E<'a, A: 'a> { V0(L<'a, A>), V1(A) }", "E<'static, G>"),
    ("type-then-lifetime", "@ pub enum E<'a, 'b: 'a, A> where A: 'b { V0(A), V1(L<'a, A>), V2(L<'b, [A]>) }", "E<'static, 'static, G>"),
    ("const-only", "@ pub enum E<const N: usize> { V0(C<u8, N>), V1(C<u16, N>) }", "E<3>"),
    ("type-and-const", "@ pub enum E<A, const N: usize> { V0(A), V1(C<A, N>), V2(C<[A; N], { 1 }>) }", "E<G, 3>"),
    ("type-default", "@ pub enum E<A = G> { V0(A), V1(Bx<A>) }", "E"),
    ("type-default-dep", "@ pub enum E<A, B = A> { V0(A), V1(B) }", "E<G>"),
    ("const-default", "@ pub enum E<A, const N: usize = 3> { V0(A), V1(C<A, N>) }", "E<G>"),
    ("inline-bounds", "@ pub enum E<A: crate::Mk + ?Sized, B: Clone + crate::Mk> { V0(Bx<A>), V1(Bx<B>) }", "E<str, u8>"),
    ("where-clause", "@ pub enum E<A, B> where A: crate::Mk, Bx<B>: crate::Mk, for<'x> &'x A: crate::Mk { V0(A), V1(B), }", "E<G, G2>"),
    ("where-lifetimes", "@ pub enum E<'a, 'b, A> where 'a: 'b, A: 'a, { V0(Bx<&'a A>), V1(Bx<&'b [A]>), V2(A) }", "E<'static, 'static, G>"),
    ("empty-where", "@ pub enum E<A> where { V0(A), V1(G2), }", None),
    ("empty-generics", "@ pub enum E<> { V0(G), V1(G2), }", "E"),
    ("pub-crate", "@ pub(crate) enum E<A> { V0(A) }", "E<G>"),
    ("private", "@ enum E<A> { V0(A) }", "E<G>"),
    ("pub-in", "@ pub(in crate) enum E<A> { V0(A) }", "E<G>"),
    ("attributes", "/// doc\n@\n#[allow(dead_code)] #[must_use] #[non_exhaustive] #[repr(u8)] #[cfg_attr(all(), doc = \"y\")] pub enum E<#[allow(unused)] A> { /// v\n #[doc(alias = \"x\")] V0(#[doc = \"f\"] A), #[deprecated] V1(Bx<A>) }", "E<G>"),
    ("pub-enum-doc-after", "@\n/** doc */ pub enum E<A> { V0(A), }", "E<G>"),
    ("tuple-array-fn", "@ pub enum E<A> { V0(Bx<(A, u8)>), V1(Bx<[A; 3]>), V2(Bx<fn(A) -> A>), V3(Bx<dyn Fn(A) -> A>), V4(Bx<*const A>), V5(Bx<&'static str>), V6(Bx<()>) }", None),
    ("projection", "pub struct PX; impl crate::Pj for PX { type Out = G; } @ pub enum E<A: crate::Pj> { V0(Bx<<A as crate::Pj>::Out>), V1(A::Out), V2(Bx<[A::Out; 1]>) }", "E<PX>"),
    ("parenthesised", "@ pub enum E<A> { V0((A)), V1(((G2))) }", None),
    ("type-macro", "macro_rules! id { ($t:ty) => { $t } } @ pub enum E<A> { V0(id!(A)), V1(Bx<id!(A)>) }", "E<G>"),
    ("raw-idents", "@ pub enum r#enum<r#fn> { r#type(r#fn), r#match(Bx<r#fn>) }", "r#enum<G>"),
    ("unicode", "@ pub enum Énum<Ä> { Ü(Ä), ß(Bx<Ä>) }", "Énum<G>"),
    ("underscores", "@ pub enum _E<_A> { _V(_A), __(Bx<_A>) }", "_E<G>"),
    ("lower-case", "@ pub enum e<a> { v(a), w(Bx<a>) }", "e<G>"),
    ("variant-like-type", "@ pub enum E<A> { A(A), E(Bx<A>), G(G2) }", None),
    ("from-macro", "macro_rules! mk { ($e:ident, $a:ident, $($v:ident($t:ty)),*) => { @ pub enum $e<$a> { $($v($t)),* } } } mk!(E, A, V0(A), V1(Bx<A>));", "E<G>"),
    ("self-type-path", "@ pub enum E<A> { V0(self::Bx<A>), V1(super::super::t_alias::Id<A>) }", None),
    ("twelve", "@ pub enum E<A, B, C2, D> { V0(A), V1(B), V2(C2), V3(D), V4(Bx<A>), V5(Bx<B>), V6(Bx<C2>), V7(Bx<D>), V8(C<A, 1>), V9(C<A, 2>), V10(G), V11(G2) }", None),
    ("trailing-commas", "@ pub enum E<A,> { V0(A,), V1(Bx<A>,), }", "E<G>"),
    ("phantom-bound", "@ pub enum E<A: for<'x> crate::Hr<'x>> { V0(A), V1(Bx<A>) }", "E<G>"),
]
SHAPES = [s for s in SHAPES if s[0] != "self-type-path"]
PRELUDE = IMPLS + "pub trait Hr<'x> {} impl<'x, T: ?Sized + Sync> Hr<'x> for T {}\n"


def shape_case(m, n, shape, listing=None):
    name, decl, inst = shape
    out = ["pub struct G(u8); pub struct G2(u8);",
           "pub struct L<'a, T: ?Sized>(::core::marker::PhantomData<fn() -> &'a T>);",
           "pub struct C<T, const N: usize>(::core::marker::PhantomData<fn() -> T>);",
           "pub struct Bx<T: ?Sized>(::core::marker::PhantomData<fn() -> T>);"]
    for ty, gen, w in (("G", "", ""), ("G2", "", ""), ("L<'za, ZT>", "<'za, ZT: ?Sized>", ""), ("C<ZT, ZN>", "<ZT, const ZN: usize>", ""),
                       ("Bx<ZT>", "<ZT: ?Sized>", "")):
        out.append(m.mock(n, ty, gen, w))
    out.append(decl.replace("@", f"#[::auto_enums::enum_derive({listing or m.listing(n)})]"))
    if inst:
        for t in m.closure(n):
            out.append(f"const _: () = assert!(impls!({inst}: {traits.bound(t)}), \"{t} not implemented\");")
    return "\n".join(out)


def names(limit):
    """names of generic parameters: no name may have a meaning to the generated code"""
    one = [chr(c) for c in range(65, 91)]
    more = ["Item", "Output", "Error", "Target", "Idx", "Data", "Fut", "Iter", "Ret", "Args", "Result", "Option", "Ok", "Err", "Some",
            "Vec", "Box", "Pin", "Context", "Self_", "Trait", "Any", "Never", "Cx", "Res", "Acc", "Init", "Pred", "Fold", "Buf", "Seed",
            "Consumer", "Callback", "Producer", "TT", "FF", "A1", "T1", "B1"]
    return one + more


def lifetimes():
    return ["'a", "'b", "'c", "'x", "'r", "'de", "'s", "'life0", "'cx", "'pin", "'async_trait"]


def name_case(m, n, name):
    return "\n".join([
        "pub struct G(u8); pub struct Bx9<T: ?Sized>(::core::marker::PhantomData<fn() -> T>);",
        m.mock(n, "G"), m.mock(n, "Bx9<ZT>", "<ZT: ?Sized>"),
        f"#[::auto_enums::enum_derive({m.listing(n)})] pub enum Enum9<{name}> {{ V0({name}), V1(Bx9<{name}>) }}",
        *[f"const _: () = assert!(impls!(Enum9<G>: {traits.bound(t)}), \"{t} not implemented\");" for t in m.closure(n)],
    ])


def lifetime_case(m, n, lt):
    return "\n".join([
        "pub struct G(u8); pub struct L9<'a, T: ?Sized>(::core::marker::PhantomData<fn() -> &'a T>);",
        m.mock(n, "G"), m.mock(n, "L9<'za, ZT>", "<'za, ZT: ?Sized>"),
        f"#[::auto_enums::enum_derive({m.listing(n)})] pub enum Enum9<{lt}, B9: {lt}> {{ V0(L9<{lt}, B9>), V1(B9) }}",
    ])


def run_cases(c, what, cases, groups_of, args, out, describe, prelude=PRELUDE, reject=None, key=None, **kw):
    """cases: [(id, text)]; those for which reject(id) names error codes must be rejected, the others must compile"""
    jobs = {}
    for i, t in cases:
        jobs.setdefault(groups_of[i], []).append((i, t))
    chunks = []
    for g, cs in jobs.items():
        k = max(1, min(len(cs), 4 * NCPU if g == "" else 2))
        for j in range(k):
            if cs[j::k]:
                chunks.append((g, cs[j::k]))

    def one(ch):
        g, cs = ch
        r = rustcm.Rustc(args[g], out, prelude=prelude, **kw)
        return r.verdicts(cs), r.compiles
    n = comp = 0
    bad = {}
    for res, k in pmap(one, chunks):
        comp += k
        for i, e in res.items():
            n += 1
            want = reject(i) if reject else None
            if want is None:
                if e is not None:
                    bad[i] = e
            elif e is None:
                bad[i] = "accepted by rustc, but must be rejected"
            elif not any(e.startswith(w) for w in want):
                bad[i] = f"rejected for another reason than {want}: {e}"
    text = dict(cases)
    for i, e in sorted(bad.items()):
        c.violation(key and key(i, e) or describe(i), why=e, program=text[i][-1500:])
    c.part(what, {"cases": n, "rustc_runs": comp, "rejected": len(bad)})
    return n, bad


def check(c):
    from . import inproc
    exe = programs.build_explorer()
    for cmd in inproc.PARTS["C23"]:
        inproc.explore(c, exe, cmd)
    m = Model(catalog(exe))
    args = rustcm.prepare(sorted({group(n) for n in m.names}))
    out = fresh("c23")
    depth, wide = (3, 8) if c.quick else (5, 14)
    tabs, grp, count = [], {}, 0
    for n in m.names:
        d = depth if len(kinds(m, n)) < 4 or not c.quick else 3
        t, k = table(m, n, d, wide)
        tabs.append((f"table|{n}", t))
        grp[f"table|{n}"] = group(n)
        count += k
    n1, bad = run_cases(c, "field kinds", tabs, grp, args, out, lambda i: f"enum_derive({i.split('|')[1]}) over all vectors of field kinds")
    c.cov["parts"]["field kinds"]["expectations"] = count
    sh = []
    for n in m.names:
        for s in SHAPES:
            i = f"{n}|{s[0]}"
            sh.append((i, shape_case(m, n, s)))
            grp[i] = group(n)
    n2, _ = run_cases(c, "shapes", sh, grp, args, out, lambda i: "shape: enum_derive({}) on {}".format(*i.split("|")))
    nm = []
    for n in m.names:
        for g in names(0):
            i = f"{n}|{g}"
            nm.append((i, name_case(m, n, g)))
            grp[i] = group(n)
        for g in lifetimes():
            i = f"{n}|{g}"
            nm.append((i, lifetime_case(m, n, g)))
            grp[i] = group(n)
    n3, _ = run_cases(c, "names", nm, grp, args, out, lambda i: "name: enum_derive({}) on an enum with generic parameter {}".format(*i.split("|")))
    c.add(n1 + n2 + n3, count + n2 + n3, count + n2 + n3)
    c.sample({"shape": sh[5][0], "program": sh[5][1][-300:]})
    c.sample({"table": tabs[0][0], "program": tabs[0][1][-300:]})
    c.assumptions.append("rustc decides whether a trait is implemented; the mock implementations of vlib/traits.py are hand-written")
