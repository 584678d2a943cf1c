"""C09, C10, C19 (rejections), C21, C22, C23 (shapes), C24: exhaustive exploration of the macros'
own input space, the real macro called in process."""
import itertools, json, os
from .common import *
from . import programs

# property -> sub-commands of the explorer
PARTS = {
    "C09": ["c09"],
    "C10": ["c10"],
    "C19": ["transpose"],
    "C21": ["c21"],
    "C23": ["shapes"],
    "C24": ["c24"],
}


def explorer():
    return programs.build_explorer()


def absorb(c, d):
    c.add(d["states"], d["transitions"])
    c.exhaustive &= d["complete"]
    for v in d["violations"]:
        c.violation(v["program"], why=v["why"], part=d["part"])
        if "BROKEN" in v["why"]:
            raise Broken(v["program"] + ": " + v["why"])
    if d["nviolations"] and not d["violations"]:
        raise Broken("violations lost")
    for s in d["samples"][:2]:
        c.sample({"input": s})
    c.part(d["part"], {k: v for k, v in d.items() if k not in ("violations", "samples", "part")})


def explore(c, exe, cmd):
    secs = 200 if c.quick else 600
    p = run([exe, cmd, c.tier, "--secs", str(secs)], timeout=800)
    lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
    if p.returncode != 0:
        if p.returncode in (-6, -11, -4):
            c.violation(f"explore {cmd}", why=f"the macro aborted the process (signal {-p.returncode})", output=p.stderr[-800:])
            return []
        raise Broken(f"explore {cmd}: exit {p.returncode}\n{p.stderr[-2000:]}")
    if not lines:
        raise Broken(f"explore {cmd}: no result")
    ds = [json.loads(l) for l in lines]
    for d in ds:
        absorb(c, d)
    return ds


def check_part(c):
    for cmd in PARTS[c.pid]:
        explore(c, explorer(), cmd)


def explorer_off():
    """the same explorer around a macro built without feature type_analysis"""
    t = os.path.join(TARGET, "off")
    cargo_build("explore", "--no-default-features", "--features", "std", "--target-dir", t, release=True)
    return os.path.join(t, "release", "explore")


def check(c):
    exe = explorer()
    for cmd in PARTS[c.pid]:
        explore(c, exe, cmd)
    if c.pid == "C09":
        # the same inputs in another process: same outputs
        first = c.cov["parts"]
        p = run([exe, "c09", "repeat"], timeout=300)
        if p.returncode:
            raise Broken(p.stderr[-800:])
        n = 0
        for d in map(json.loads, p.stdout.splitlines()):
            f = first[d["part"]]
            if f["complete"] and d["complete"] and f["digest"] != d["digest"]:
                c.violation(d["part"], why="another process gives different outputs for the same inputs")
            n += d["states"]
        c.part("another process", {"states": n})
    if c.pid == "C10":
        explore(c, explorer_off(), "c10")
    c.assumptions.append("states = inputs given to the real macro in process, transitions = their parts chosen; every input of the stated universe is run")
    c.cov["traces_validated_against_impl"] = c.cov["states"]
