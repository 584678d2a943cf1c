"""C22: every configuration of crate features within the bound, the real macro built for each."""
import itertools, json, os, tomllib
from .common import *
from . import programs

DRIVER = r'''
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    for l in s.lines() {
        let (k, rest) = l.split_once('\t').unwrap();
        let (args, item) = rest.split_once('\t').unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (a, i) = (args.parse().unwrap(), item.parse().unwrap());
            if k == "d" { aelib::enum_derive(a, i) } else { aelib::auto_enum(a, i) }.to_string()
        }));
        println!("{}\t{}", args, r.unwrap_or_else(|_| "PANIC".into()).replace('\n', " "));
    }
}
'''
ITEM = "enum E < A , B > { V0 (A) , V1 (B) , }"
# the opt-in rule of the documentation ("Optional features"): these demand `unstable`
UNSTABLE = {"coroutine_trait", "fn_traits", "trusted_len"}
# the documented features (crate-level documentation); aliases and defaults are documented too
DOCUMENTED = ["std", "ops", "convert", "fmt", "type_analysis", "transpose_methods", "futures03", "futures01", "rayon", "serde",
              "tokio1", "tokio03", "tokio02", "tokio01", "http_body1", "unstable", "coroutine_trait", "generator_trait",
              "fn_traits", "trusted_len"]
IMPLIES = {"generator_trait": ["coroutine_trait"], "default": ["std"]}


def closure(sel, implies):
    s = set(sel)
    while True:
        t = s | {y for x in s for y in implies.get(x, [])}
        if t == s:
            return s
        s = t


def covering(feats, t):
    """configurations such that every assignment of every t features occurs (greedy, deterministic)"""
    import random
    rnd = random.Random(7)
    todo = {(c, v) for c in itertools.combinations(range(len(feats)), t) for v in itertools.product((0, 1), repeat=t)}
    out = []
    while todo:
        best = None
        for _ in range(30):
            base = next(iter(sorted(todo)[rnd.randrange(len(todo)):]))
            row = [rnd.randrange(2) for _ in feats]
            for i, v in zip(*base):
                row[i] = v
            cov = {(c, tuple(row[i] for i in c)) for c in itertools.combinations(range(len(feats)), t)} & todo
            if best is None or len(cov) > len(best[1]):
                best = (row, cov)
        out.append([f for f, b in zip(feats, best[0]) if b])
        todo -= best[1]
    return out


def configs(tier):
    f = DOCUMENTED
    rows = [[], ["default"], list(f), ["default"] + list(f)]
    rows += [[x] for x in f] + [[y for y in f if y != x] for x in f]
    # the unstable traits with their opt-in
    rows += [[x, "unstable"] for x in ("coroutine_trait", "generator_trait", "fn_traits", "trusted_len")]
    free = [x for x in f if x not in ("unstable",)]
    # opt-in present, every three of the other features in all eight combinations
    rows += [r + ["unstable"] for r in covering(free, 2 if tier == "quick" else 3)]
    stable = [x for x in free if x not in UNSTABLE and x != "generator_trait"]
    rows += covering(stable, 2 if tier == "quick" else 3)
    if tier != "quick":
        for a, b in itertools.combinations(f, 2):
            rows.append([a, b])
            rows.append([x for x in f if x not in (a, b)])
    seen, out = set(), []
    for r in rows:
        k = tuple(sorted(r))
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def check(c):
    exe = programs.build_explorer()
    cat = json.loads(run([exe, "catalog"], check=True).stdout)
    deps = os.path.join(TARGET, "release", "deps")
    import glob
    ext = []
    for n in ("derive_utils", "proc_macro2", "quote", "syn"):
        p = glob.glob(f"{deps}/lib{n}-*.rlib")
        ext += ["--extern", f"{n}={max(p, key=os.path.getmtime)}"]
    out = fresh("c22")
    drv = os.path.join(out, "driver.rs")
    open(drv, "w").write(DRIVER)
    man = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    feats = man["features"]
    optional = {n for t in ("dependencies",) for n, d in man.get(t, {}).items() if isinstance(d, dict) and d.get("optional")}
    for f in DOCUMENTED + ["default"]:
        if f not in feats:
            c.violation(f"feature {f}", why="a documented feature does not exist in Cargo.toml")
            return
    implies = {k: [x for x in v if x in feats] for k, v in feats.items()}
    edition = man["package"]["edition"]
    canon = {}
    for i, t in enumerate(cat):
        for n in t["names"]:
            canon[n] = i
    name_ix = {t["names"][0]: i for i, t in enumerate(cat)}
    unknown = ["Clone", "Hash", "io::Debug", "fmt::Read", "Stream", "futures03::Future", "tokio01::AsyncSeek", "Serialize"]
    lists = [n for n in canon] + unknown + ["Transpose"]
    # dependency chains and mixtures across features
    lists += ["Iterator , Clone", "Error , Debug , Display", "Deref , DerefMut", "Fn , FnMut , FnOnce", "io::Read , Read , Clone"]

    def expect(names, on):
        """(derive list, implemented traits) by the documentation"""
        want, derive, inh = [], [], 0

        def add(n):
            nonlocal inh
            if n == "Transpose" and "transpose_methods" in on:
                inh = 1
                return
            i = canon.get(n)
            if i is None or not set(cat[i]["features"]) <= on:
                if n not in derive:
                    derive.append(n)
                return
            if i in want:
                return
            want.append(i)
            for d in cat[i]["deps"]:
                add(d)
        for n in names:
            add(n)
        return derive, sorted(":".join(cat[i]["path"]) for i in want), inh

    rows = configs(c.tier)
    c.part("configurations", {"configs": len(rows), "lists": len(lists)})

    def one(k):
        i, row = k
        doc = closure(row, IMPLIES)
        real = closure(row, implies)
        d = os.path.join(out, str(i))
        os.makedirs(d)
        cfgs = [a for f in sorted(real) for a in ("--cfg", f'feature="{f}"')]
        p = run(["rustc", "--edition", edition, "--crate-type", "rlib", "--crate-name", "aelib", "--cfg", "auto_enums_verif", *cfgs,
                 "-Cpanic=unwind", "-Ccodegen-units=16", "-Awarnings", os.path.join(REPO, "src", "lib.rs"), "-L", f"dependency={deps}", *ext, "--out-dir", d], timeout=600)
        must_fail = bool(doc & UNSTABLE) and "unstable" not in doc
        if p.returncode != 0:
            shutil.rmtree(d, ignore_errors=True)
            if not must_fail:
                return row, [("does not build: " + p.stderr[:1500], "")], 0, p.stderr
            if "requires the `unstable` feature" not in p.stderr:
                return row, [("the missing opt-in is not what the compiler reports: " + p.stderr[:800], "")], 0, ""
            return row, [], 1, ""
        if must_fail:
            shutil.rmtree(d, ignore_errors=True)
            return row, [("an unstable feature is accepted without `unstable`", "")], 0, ""
        run(["rustc", "--edition", "2021", "-Awarnings", "-Cpanic=unwind", drv, "-L", f"dependency={deps}", "--extern", f"aelib={d}/libaelib.rlib", "-o", f"{d}/drv"],
            timeout=600, check=True)
        inp = "".join(f"d\t{n}\t{ITEM}\n" for n in lists)
        inp += "a\t\tfn f (c : bool) -> impl Iterator < Item = u8 > { if c { a () } else { b () } }\n"
        inp += "a\tIterator\tfn f (c : bool) -> impl Iterator < Item = u8 > { if c { a () } else { b () } }\n"
        q = run([f"{d}/drv"], inp=inp, timeout=300)
        cl = run([exe, "classify"], inp=q.stdout, timeout=300)
        shutil.rmtree(d, ignore_errors=True)
        got = [l.split("\t", 1) for l in cl.stdout.splitlines()]
        outs = q.stdout.splitlines()
        if q.returncode or len(outs) != len(lists) + 2:
            return row, [("the macro aborts: " + q.stderr[:500], "")], 0, ""
        bad = []
        for n, (m, st) in zip(lists, got):
            names = [x.strip() for x in n.split(",")]
            dv, im, inh = expect(names, doc)
            w = f"derive=[{','.join(dv)}] impls=[{','.join(sorted(im))}] inherent={inh}"
            if st.replace(" ", "") != w.replace(" ", ""):
                bad.append((f"#[enum_derive({n})] expands to {st}, documented: {w}", n))
        flat = outs[-2].replace(" ", "")
        inferred = "Iteratorfor" in flat or bool(re.search(r"enum_derive\([^)]*\bIterator\b", flat))
        if inferred != ("type_analysis" in doc):
            bad.append((f"trait inference from the return type: {inferred}", "auto_enum"))
        if "compile_error" in outs[-1].replace(" ", "").split("\t", 1)[1]:
            bad.append(("#[auto_enum(Iterator)] rejected: " + outs[-1][:300], "auto_enum"))
        return row, bad, len(lists) + 2, ""

    n = 0
    failed = 0
    limit = 100 if c.quick else 780
    rows_done = 0
    def guarded(k):
        if c.elapsed() > limit:
            return None
        return one(k)
    res = pmap(guarded, list(enumerate(rows)))
    done = [r for r in res if r]
    if len(done) < len(rows):
        c.exhaustive = False
        c.assumptions.append(f"time cap: {len(done)} of {len(rows)} configurations built")
    allfail = [r for r in done if r[3]]
    if len(allfail) == len([r for r in done if r[1] or r[2] > 1]) and len(allfail) == len(done):
        raise Broken("no configuration builds: " + allfail[0][3][:3000])
    for row, bad, k, _ in done:
        n += k
        for w, lst in bad:
            c.violation(f"features={','.join(row) or '(none)'} list={lst}", why=w)
        failed += k == 1
    c.add(len(done), n, n)
    for r in done[3:60:12]:
        c.sample({"features": r[0], "expansions": r[2]})
    c.part("outcome", {"built": len(done) - failed, "rejected_for_missing_opt_in": failed, "expansions": n})
    c.assumptions.append("states = feature configurations built, transitions = expansions judged; gating conditions over more than "
                         + ("two" if c.quick else "three") + " free features are covered only where they show up in a covered combination")
