"""Engine C checks: build the harness binaries against /repo's current tree and run them.

A harness is an ordinary user of the derives. Its reference side does not involve the macro, so
when the macro crate builds but the harness does not, the derived implementations are at fault.
"""
import json, os, re
from .common import *

# property -> [(crate, binary)]
PLAN = {
    "C11": [("disp", "c11")],
    "C12": [("disp", "c12")],
    "C13": [("disp", "c13")],
    "C14": [("disp", "c14")],
    "C15": [("disp", "c15"), ("disp03", "disp03"), ("disp02", "disp02")],
    "C16": [("disp01", "disp01")],
    "C17": [("disp", "c17")],
    "C18": [("disp", "c18")],
    "C19": [("disp", "c19")],
}
SECS = {"quick": 200, "thorough": 650}
EXE = os.path.join(TARGET, "debug")


def build(c, crate, binary):
    p = run(["cargo", "build", "--offline", "--bin", binary], cwd=os.path.join(VERIF, crate), timeout=900)
    if p.returncode == 0:
        return True
    ok, err = repo_macro_builds()
    if not ok:
        raise Broken("the auto_enums crate itself does not build:\n" + err[-3000:])
    # a compile error of the harness: only the code generated by the macro changes between trees
    head = "\n".join(l for l in p.stderr.splitlines() if re.match(r"(error|  *-->)", l))
    if "could not compile `auto_enums`" in p.stderr or "could not compile `mc`" in p.stderr or f"could not compile `{crate}`" not in p.stderr:
        raise Broken(f"cargo build of {crate}/{binary} failed:\n" + p.stderr[-4000:])
    c.violation(f"{crate}/{binary}: harness does not compile",
                what="a program using the derives as documented is rejected by rustc (it compiles with correct derives)",
                errors=head[:1500], compiler=p.stderr[:2500])
    return False


def execute(c, crate, binary):
    secs = SECS[c.tier]
    p = run([os.path.join(EXE, binary), c.tier, str(secs)], timeout=secs + 200)
    for l in p.stdout.splitlines():
        if l.startswith("BROKEN"):
            raise Broken(f"{binary}: {l}")
    m = re.search(r"^RESULT (.*)$", p.stdout, re.M)
    if not m:
        if p.returncode in (-6, -11, -4, 134, 139):
            # the exploring process was killed by a signal inside a derived implementation
            c.violation(f"{binary}: crash", what="the process running the derived implementations died",
                        status=p.returncode, output=(p.stdout + p.stderr)[-1500:])
            return
        raise Broken(f"{binary}: exit {p.returncode}, no result\n{p.stdout[-1000:]}\n{p.stderr[-2000:]}")
    r = json.loads(m.group(1))
    c.add(states=r["executions"], transitions=r["choices"], traces=r["replays"])
    for q in r["parts"]:
        c.part(f"{binary}: {q['part']}", {k: v for k, v in q.items() if k != "part"})
    for s in r["samples"]:
        c.sample(s)
    if not r["complete"]:
        c.exhaustive = False
    for v in r["violations"]:
        c.violation(f"{binary}: {v['part']} {v['sut']}", what=v["first_difference"],
                    **{k: x for k, x in v.items() if k != "first_difference"})


def check(c):
    c.assumptions += [
        "the trait, its adapters and rustc are trusted; fields are instrumented mocks whose every answer is enumerated",
        "provided methods that the derive does not forward and that no mock overrides are reached through their default bodies only",
        "states = executions of the history on the bare field, transitions = choices made, "
        "traces_validated_against_impl = replays of such an execution on a derived enum (real code in both)",
    ]
    for crate, b in PLAN[c.pid]:
        if build(c, crate, b):
            execute(c, crate, b)
