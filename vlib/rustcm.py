"""Compiling a large set of small cases with rustc and the real proc macro, one verdict per case."""
import glob, json, os, re
from .common import *

# externs group -> crate of /verif whose dependencies provide the external crates
GROUP = {"": "ext", "01": "ext01", "02": "ext02", "03": "ext03", "ns": "extns"}
FEATURES = "#![feature(coroutine_trait, fn_traits, unboxed_closures, trusted_len)]\n"


def prepare(groups):
    """dependencies and the real macro (all features); group -> rustc arguments"""
    out = {}
    for g in groups:
        crate = GROUP[g]
        p = run(["cargo", "build", "--offline", "--message-format=json"], cwd=os.path.join(VERIF, crate), timeout=900)
        if p.returncode:
            raise Broken(f"cargo build of {crate} failed:\n{p.stderr[-4000:]}")
        a = ["-L", "dependency=" + os.path.join(TARGET, "debug", "deps")]
        for l in p.stdout.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in EXTERNS:
                n = EXTERNS[m["target"]["name"]]
                f = [x for x in m["filenames"] if x.endswith((".rlib", ".so"))]
                if f and wanted(crate, n, m):
                    a += ["--extern", f"{n}={f[0]}"]
        out[g] = a
    return out


EXTERNS = {"auto_enums": "auto_enums", "futures_util": "futures", "futures": "futures", "tokio": "tokio", "rayon": "rayon",
           "serde": "serde", "http_body": "http_body"}


def wanted(crate, n, m):
    v = re.search(r"[@#]([0-9.]+)$", m["package_id"])
    v = v.group(1) if v else ""
    if n == "futures":
        return v.startswith("0.1.") if crate == "ext01" else v.startswith("0.3.")
    if n == "tokio":
        return v.startswith({"extns": "1.", "ext": "1.", "ext01": "0.1.", "ext02": "0.2.", "ext03": "0.3."}[crate])
    return True


class Rustc:
    def __init__(self, args, workdir, edition="2021", head=FEATURES, prelude="", crate_type="lib", extra=()):
        self.args, self.dir, self.edition, self.head, self.prelude = args, workdir, edition, head, prelude
        self.crate_type, self.extra = crate_type, list(extra)
        self.n = 0
        self.compiles = 0

    def compile(self, cases):
        """cases: [(id, text)] -> (ok, {id: first error}, unattributed errors)"""
        self.n += 1
        self.compiles += 1
        src = os.path.join(self.dir, f"t{id(self)}_{self.n}.rs")
        lines = (self.head + "#![allow(warnings)]\n" + self.prelude).split("\n")
        where = []
        for cid, text in cases:
            where.append((len(lines), cid))
            text = text.replace("@M@", f"m_{len(where)}")
            lines += [f"pub mod m_{len(where)} {{ // {cid}", *text.split("\n"), "}"]
        open(src, "w").write("\n".join(lines) + "\n")
        p = run(["rustc", "--edition", self.edition, "--crate-type", self.crate_type, "--crate-name", "t", "--emit=metadata", "--error-format=json",
                 *self.args, *self.extra, src, "-o", src[:-3] + ".rmeta"], timeout=600)
        bad, lost = {}, []
        starts = [s for s, _ in where]
        import bisect

        def owner(sp):
            while sp.get("expansion"):
                sp = sp["expansion"]["span"]
            if not sp["file_name"].endswith(os.path.basename(src)):
                return None
            i = bisect.bisect_right(starts, sp["line_start"] - 1) - 1
            return where[i][1] if i >= 0 else None
        for l in p.stderr.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("level") != "error" or m["message"].startswith("aborting due to"):
                continue
            o = None
            for sp in sorted(m["spans"], key=lambda s: not s["is_primary"]):
                o = owner(sp)
                if o is not None:
                    break
            code = (m.get("code") or {}).get("code") or ""
            text = f"{code} {m['message']}"
            if o is None:
                lost.append(text)
            else:
                if text not in bad.setdefault(o, []):
                    bad[o].append(text)
        for f in (src, src[:-3] + ".rmeta"):
            if os.path.exists(f):
                os.unlink(f)
        if p.returncode not in (0, 1):
            lost.append(f"rustc exit {p.returncode}: " + p.stderr[-500:])
        # the errors in the order of their emission
        return p.returncode == 0, {k: " ; ".join(v[:8]) for k, v in bad.items()}, lost

    def verdicts(self, cases):
        """{id: None if it compiles else the first error}; removes rejected cases until the rest compiles"""
        res, todo = {}, list(cases)
        while todo:
            ok, bad, lost = self.compile(todo)
            if ok:
                res.update((i, None) for i, _ in todo)
                break
            if not bad:
                if len(todo) == 1:
                    res[todo[0][0]] = (lost or ["?"])[0]
                    break
                h = len(todo) // 2
                res.update(self.verdicts(todo[:h]))
                res.update(self.verdicts(todo[h:]))
                break
            res.update(bad)
            todo = [c for c in todo if c[0] not in bad]
        return res
