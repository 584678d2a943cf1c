"""C01..C08: explicit-state exploration of annotated programs.

Engine A (explore auto): all programs of the grammar up to a size, through the real macro in
process, original vs expansion on all executions.
Engine B (explore emit + rustc): the smaller programs compiled by rustc with the real proc macro;
every model execution replayed on the binary.
"""
import glob, json, os
from .common import *


def build_explorer():
    cargo_build("explore", release=True)
    return os.path.join(TARGET, "release", "explore")


def build_rt():
    cargo_build("rt")
    d = os.path.join(TARGET, "debug", "deps")
    so = max(glob.glob(d + "/libauto_enums-*.so"), key=os.path.getmtime)
    return d, os.path.join(TARGET, "debug", "librt.rlib"), so


def engine_a(c, exe, profile, fuel, horizon=10, secs=600):
    p = run([exe, "auto", profile, "--fuel", str(fuel), "--horizon", str(horizon), "--secs", str(secs)],
            timeout=secs + 200)
    try:
        d = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        # the process died: find the program
        q = run([exe, "auto", profile, "--fuel", str(fuel), "--threads", "1", "--log", "1"], timeout=300)
        last = [l for l in q.stderr.splitlines() if l.startswith("PROGRAM ")]
        if q.returncode != 0 and last:
            c.violation(last[-1][8:], why=f"the macro aborted the process (exit {q.returncode})")
            return None
        raise Broken(f"explore auto {profile}: exit {p.returncode} {p.stderr[-2000:]} {p.stdout[-500:]}")
    c.add(d["grammar_nodes"] + d["executions"], d["grammar_edges"] + d["transitions"])
    c.exhaustive &= d["complete"]
    for v in d["violations"]:
        c.violation(v["program"], why=v["why"], engine="A", profile=profile,
                    replay=f"target/release/explore one FILE (FILE holding the program)")
    if d["nviolations"] and not d["violations"]:
        raise Broken("violations lost")
    if d["unsupported"]:
        c.assumptions.append(f"{d['unsupported']} programs of {profile} left to engine B (construct unknown to the interpreter): "
                             + d["unsupported_samples"][0]["why"][:200])
        if d["unsupported"] * 2 > d["programs"]:
            raise Broken("interpreter cannot follow the macro output: " + d["unsupported_samples"][0]["why"][:500])
    for s in d["samples"]:
        c.sample({"program": s})
    c.part(f"A:{profile}", {k: v for k, v in d.items() if k not in ("violations", "unsupported_samples", "samples")})
    return d


def engine_b(c, exe, rt, profile, fuel, horizon=10, per=700, maxn=None):
    """compile and replay; returns nothing, records violations"""
    dirname = f"b_{c.pid}_{profile}_{fuel}"
    out = fresh(dirname)
    cmd = [exe, "emit", profile, "--fuel", str(fuel), "--horizon", str(horizon), "--out", out, "--per", str(per)]
    if maxn:
        cmd += ["--max", str(maxn)]
    p = run(cmd, timeout=600, check=True)
    info = json.loads(p.stdout.strip().splitlines()[-1])
    deps, rtlib, so = rt

    def one(i):
        b = os.path.join(out, f"s{i}")
        q = run(["rustc", "--edition", "2021", f"s{i}.rs", "-L", "dependency=" + deps, "--extern", "rt=" + rtlib,
                 "--extern", "auto_enums=" + so, "-C", "debuginfo=0", "-o", f"s{i}.bin", "--error-format=json"],
                cwd=out, timeout=900)
        res = {"viol": [], "n": 0}
        src = None
        if q.returncode != 0:
            src = open(b + ".rs").read().split("\n")
            for l in q.stderr.splitlines():
                try:
                    d = json.loads(l)
                except Exception:
                    continue
                if d.get("level") != "error":
                    continue
                lines = sorted({s["line_start"] for s in d["spans"] if s["file_name"].endswith(f"s{i}.rs")})
                lines = [x for x in lines if src[x - 1].startswith("mod p")]
                if lines:
                    res["viol"].append((prog(src[lines[0] - 1]), "rustc rejects the expansion: " + d["message"]))
            if not res["viol"]:
                raise Broken(f"rustc failed on {b}.rs: {q.stderr[-2000:]}")
            os.unlink(b + ".rs")
            return res
        q = run([b + ".bin", b + ".exp"], timeout=600)
        done = False
        for l in q.stdout.splitlines():
            f = l.split("\t")
            if f[0] == "DONE":
                res["n"], done = int(f[1]), True
            elif f[0] in ("MISMATCH", "HANG"):
                src = src or open(b + ".rs").read().split("\n")
                line = next(x for x in src if x.startswith(f"mod p{f[1]} "))
                res["viol"].append((prog(line), f"{f[0]}: path [{f[2]}] " + " ".join(f[3:])))
        if not done and not res["viol"]:
            raise Broken(f"replay of {b} died: exit {q.returncode} {q.stderr[-500:]}")
        for x in (".rs", ".bin", ".exp"):
            os.unlink(b + x)
        return res

    rs = pmap(one, range(info["shards"]))
    n = sum(r["n"] for r in rs)
    for r in rs:
        for k, w in r["viol"][:5]:
            c.violation(k, why=w, engine="B", profile=profile)
    c.add(traces=n)
    c.part(f"B:{profile}", {"fuel": fuel, "programs": info["programs"], "model_paths": info["paths"], "replayed": n})
    shutil.rmtree(out, ignore_errors=True)


def prog(line):
    i = line.index("use super::*; ") + len("use super::*; ")
    return line[i:line.rindex(" pub fn go()")]


# property -> [(profile, quick fuel A, thorough fuel A, quick fuel B, thorough fuel B)]
# (B None: the profile's programs are compiled under another property)
PLAN = {
    "C01": [("branch", 3, 4, 2, 2)],
    "C02": [("loop", 2, 2, 1, 1), ("mix", 2, 2, None, None)],
    "C03": [("return", 2, 2, 1, 1), ("mix", 2, 2, None, None)],
    "C04": [("try", 2, 3, 2, 2)],
    "C05": [("diverge", 2, 3, 1, 2), ("mix", 2, 2, None, None)],
    "C06": [("nested", 2, 3, 1, 2), ("mix", 2, 2, None, None)],
    "C07": [("marker", 5, 7, 3, 4), ("mix", 2, 2, None, None)],
    "C08": [("multi", 1, 1, 0, 0), ("mix", 2, 3, 1, 1)],
}


def check(c):
    exe = build_explorer()
    rt = build_rt()
    c.assumptions += [
        "the environment functions of the generated programs answer arbitrarily (all answers explored up to the horizon)",
        "the interpreter is an abstraction of rustc (types compared structurally); bound to rustc by replaying all its executions on compiled programs of the smaller fuel (traces_validated_against_impl)",
    ]
    for profile, qa, ta, qb, tb in PLAN[c.pid]:
        engine_a(c, exe, profile, qa if c.quick else ta, horizon=10 if c.quick else 16, secs=300 if c.quick else 600)
        fb = qb if c.quick else tb
        if fb is not None:
            engine_b(c, exe, rt, profile, fb)
