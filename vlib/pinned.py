"""C20: what users may add to an enum that derives pinned traits."""
import itertools
from .common import *
from . import programs, rustcm, shapes, traits
from .shapes import Model, catalog, group

# traits with methods that take self by value: rustc itself keeps the field from being moved out of an enum with Drop
CONSUMING = ("Iterator", "FnOnce", "rayon::ParallelIterator")
# enum declarations: (name, declaration, generics of an impl, type, where clause, instantiation with {u} / {p} fields)
FORMS = [
    ("one", "@ pub enum E<A> { V0(A) }", "<A>", "E<A>", ""),
    ("two", "@ pub enum E<A, B> { V0(A), V1(B) }", "<A, B>", "E<A, B>", ""),
    ("mixed", "@ pub enum E<'a, A: 'a, const N: usize> where A: crate::Mk { V0(A), V1(L<'a, A>), V2(C<A, N>) }", "<'a, A: 'a, const N: usize>", "E<'a, A, N>", "where A: crate::Mk"),
    ("concrete", "@ pub enum E { V0(U), V1(P) }", "", "E", ""),
    ("concrete-unpin", "@ pub enum E { V0(U), V1(Bx<P>) }", "", "E", ""),
    ("default", "@ pub enum E<A = U, B = A> { V0(A), V1(B) }", "<A, B>", "E<A, B>", ""),
]
DECL = """
#[derive(Clone)] pub struct U(u8);
pub struct P(::core::marker::PhantomPinned);
pub struct D(u8); impl ::core::ops::Drop for D { fn drop(&mut self) {} }
pub struct L<'a, T: ?Sized>(::core::marker::PhantomData<fn() -> &'a T>);
pub struct C<T, const N: usize>(::core::marker::PhantomData<fn() -> T>);
pub struct Bx<T: ?Sized>(::core::marker::PhantomData<fn() -> T>);
"""


def mocks(m, names):
    out = [DECL]
    done = set()
    for n in names:
        for x in m.closure(n):
            if x in done:
                continue
            done.add(x)
            for ty, gen in (("U", ""), ("P", ""), ("D", ""), ("L<'za, ZT>", "<'za, ZT: ?Sized>"), ("C<ZT, ZN>", "<ZT, const ZN: usize>"), ("Bx<ZT>", "<ZT: ?Sized>")):
                out.append(traits.implement(x, ty, gen))
    return "\n".join(out)


def user_impls(gen, ty, where):
    """(name, text, also rejected by rustc itself)"""
    drop = "fn drop(&mut self) {}"
    out = [
        ("Unpin", f"impl{gen} ::core::marker::Unpin for {ty} {where} {{}}"),
        ("Drop", f"impl{gen} ::core::ops::Drop for {ty} {where} {{ {drop} }}"),
    ]
    if "A" in gen:
        w = (where + ", " if where else "where ") + "A: ::core::marker::Unpin"
        out.append(("Unpin where A: Unpin", f"impl{gen} ::core::marker::Unpin for {ty} {w} {{}}"))
        w = (where + ", " if where else "where ") + "A: ::core::marker::Copy"
        out.append(("Unpin where A: Copy", f"impl{gen} ::core::marker::Unpin for {ty} {w} {{}}"))
        g2 = gen.replace("A: 'a, ", "").replace("A, ", "").replace("<A>", "")
        for x in "UP":
            out.append((f"Unpin for A = {x}", f"impl{g2} ::core::marker::Unpin for {ty.replace('A', x, 1)} {where.replace('A', x, 1)} {{}}"))
        if "B" in gen:
            out.append(("Unpin for A = P, B = P", f"impl ::core::marker::Unpin for E<P, P> {{}}"))
            out.append(("Unpin for A = B", f"impl<A> ::core::marker::Unpin for E<A, A> {{}}"))
    return out


def check(c):
    exe = programs.build_explorer()
    cat = catalog(exe)
    m = Model(cat)
    pinned = [n for n in m.names if m.by[n]["pinned"]]
    plain = [n for n in m.names if not m.by[n]["pinned"]]
    args = rustcm.prepare(sorted({group(n) for n in m.names}))
    out = fresh("c20")
    # lists of traits that contain a pinned trait at every position, and lists that contain none
    lists = []
    for n in pinned:
        lists.append((m.listing(n), [n]))
        if group(n) == "":
            lists.append((m.listing(n) + " , Iterator", [n, "Iterator"]))
            lists.append(("Debug , " + m.listing(n) + " , fmt::Write", [n, "Debug", "fmt::Write"]))
    for a, b in itertools.combinations([n for n in pinned if group(n) == ""], 2):
        if not c.quick or {a, b} & {"Future", "futures03::Stream", "http_body1::Body"}:
            lists.append((m.listing(a) + " , " + m.listing(b) + " ", [a, b]))
    for n in plain:
        lists.append((m.listing(n), [n]))
    for a, b in itertools.combinations([n for n in plain if group(n) == ""], 2):
        if not c.quick and not (set(m.closure(a)) & set(m.closure(b))):
            lists.append((m.listing(a) + " , " + m.listing(b), [a, b]))
    grp, reject, auto, user = {}, {}, [], []
    for text, names in lists:
        is_pinned = any(n in pinned for n in names)
        # (tokio's AsyncBufRead etc. need their supertrait once)
        seen, parts = set(), []
        for p in [x.strip() for x in text.split(" , ")]:
            if p not in seen:
                seen.add(p)
                parts.append(p)
        text = " , ".join(parts)
        g = group(names[0])
        mk = mocks(m, names)
        # which vectors of fields are Unpin
        ls = [mk]
        depth = 3 if c.quick else 5
        vecs = [v for k in range(1, depth + 1) for v in itertools.product("UPD", repeat=k)]
        for k in range(1, depth + 1):
            ps = ", ".join(f"A{i}" for i in range(k))
            ls.append(f"#[::auto_enums::enum_derive({text})] pub enum E{k}<{ps}> {{ {', '.join(f'V{i}(A{i})' for i in range(k))} }}")
        for j, v in enumerate(vecs):
            w = "" if "P" not in v else "!"
            ls.append(f"const _: () = assert!({w}impls!(E{len(v)}<{', '.join(v)}>: ::core::marker::Unpin), \"fields {''.join(v)}\");")
            if len(v) <= 2:
                ls.append(f"#[::auto_enums::enum_derive({text})] pub enum X{j} {{ {', '.join(f'V{i}({x})' for i, x in enumerate(v))} }}")
                ls.append(f"const _: () = assert!({w}impls!(X{j}: ::core::marker::Unpin), \"concrete fields {''.join(v)}\");")
                if len(v) == 2:
                    ls.append(f"#[::auto_enums::enum_derive({text})] pub enum Y{j}<A> {{ V0(A), V1({v[1]}) }}")
                    ls.append(f"const _: () = assert!({w}impls!(Y{j}<{v[0]}>: ::core::marker::Unpin), \"mixed fields {''.join(v)}\");")
        i = f"auto|{text}"
        auto.append((i, "\n".join(ls)))
        grp[i] = g
        for f, decl, gen, ty, where in FORMS:
            d = mk + decl.replace("@", f"#[::auto_enums::enum_derive({text})]")
            for un, ut in [("(none)", "")] + user_impls(gen, ty, where):
                if un == "Drop" and not is_pinned and any(x in CONSUMING for n in names for x in m.closure(n)):
                    continue
                i = f"user|{text}|{f}|{un}"
                user.append((i, d + "\n" + ut))
                grp[i] = g
                # the same program without the user's impl is accepted, so any error is about the impl
                if is_pinned and ut:
                    reject[i] = ("E",)
    limit = None
    n1, _ = shapes.run_cases(c, "auto Unpin", auto, grp, args, out, lambda i: "Unpin of enums deriving " + i.split("|")[1], prelude=shapes.PRELUDE)
    n2, _ = shapes.run_cases(c, "user impls", user, grp, args, out, lambda i: "user impl: {1} on {2}: impl {3}".format(*i.split("|")), prelude=shapes.PRELUDE,
                             reject=reject.get)
    c.add(n1 + n2, n1 * len(vecs) + n2, n1 * len(vecs) + n2)
    c.part("lists", {"lists": len(lists), "pinned": len(pinned), "user_impls_that_must_be_rejected": len(reject)})
    c.sample({"user_impl": user[0][0], "program": user[0][1][-300:]})
    c.assumptions.append("rustc decides; specialised Unpin impls are tried for local types with and without PhantomPinned; negative impls of the user's crate (unstable) are not")
