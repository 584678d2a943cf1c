#!/usr/bin/env python3
"""Development tool (no check uses it): writes /verif/seeded/<id>/ from specs and tries them out.
   seedlib.py gen [ID..] | try [ID..]   (try: build, tests, demo and checks with the patch applied in /repo)"""
import json, os, subprocess, sys, tempfile, glob, importlib.util, shutil

V = "/verif"
SEEDED = V + "/seeded"
SPECS = {}

DEMO = """#!/bin/bash
# exit 0 when the property holds for this program, nonzero otherwise (run with cwd = the repository)
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=nightly-2025-03-20 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH="/root/.cargo/bin:$PATH"
unset RUSTFLAGS
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src"
sed "s|@REPO@|$repo|" "$here/demo.toml" > "$tmp/Cargo.toml"
cp "$here/demo.rs" "$tmp/src/main.rs"
export CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" || exit 3
@BODY@
"""
BODY = {
    "run": 'timeout 250 cargo run --offline -q\nexit $?',
    "reject": """timeout 250 cargo build --offline -q 2> err
rc=$?
cat err
# a correct tree rejects this program
if [ $rc -ne 0 ] && grep -q "@MSG@" err; then exit 0; fi
exit 1""",
}


def seed(id, prop, edits, rs, needs, breaks, feats=(), deps="", body="run", msg="", edition="2021", no_default=False):
    SPECS[id] = dict(prop=prop, edits=edits, rs=rs, needs=needs, breaks=breaks, feats=list(feats), deps=deps,
                     body=body, msg=msg, edition=edition, no_default=no_default)


def gen(i):
    s = SPECS[i]
    d = f"{SEEDED}/{i}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"], check=True)
    try:
        for f, old, new in s["edits"]:
            p = f"{t}/w/{f}"
            x = open(p).read()
            assert x.count(old) == 1, (i, f, x.count(old), old)
            open(p, "w").write(x.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/w", "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"], check=True)
        os.rmdir(t)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(s["rs"])
    f = ", ".join(f'"{x}"' for x in s["feats"])
    nd = ", default-features = false" if s["no_default"] else ""
    open(d + "/demo.toml", "w").write(f"""[package]
name = "demo"
version = "0.0.0"
edition = "{s['edition']}"
publish = false

[workspace]

[dependencies]
auto_enums = {{ path = "@REPO@", features = [{f}]{nd} }}
{s['deps']}
""")
    open(d + "/demo.sh", "w").write(DEMO.replace("@BODY@", BODY.get(s["body"], s["body"]).replace("@MSG@", s["msg"])))
    os.chmod(d + "/demo.sh", 0o755)


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def try_(i, tier="quick"):
    s = SPECS[i]
    d = f"{SEEDED}/{i}"
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = [i, s["prop"]]
    r0 = sh(["bash", d + "/demo.sh"], cwd="/repo")
    out.append("clean-demo:" + ("ok" if r0.returncode == 0 else f"BAD {r0.stdout[-300:]} {r0.stderr[-800:]}"))
    assert sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout == ""
    a = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    assert a.returncode == 0, a.stderr
    try:
        b = sh(["bash", "/opt/vp/build.sh"])
        if b.returncode:
            out.append("BUILD FAILS " + b.stderr[-600:])
        else:
            sh(["bash", "/opt/vp/test.sh", "/tmp/seed-out.json"])
            p = set(json.load(open("/tmp/seed-out.json"))["passed"])
            miss = stable - p
            out.append("tests:" + ("pass" if not miss else f"FAIL {sorted(miss)[:4]}"))
            r = sh(["bash", d + "/demo.sh"], cwd="/repo")
            out.append("demo:" + ("NOT DETECTED" if r.returncode == 0 else "shows it"))
            c = sh(["python3", V + "/check.py", s["prop"], tier])
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check: {'CAUGHT' if c.returncode == 1 and v else 'MISSED'} rc={c.returncode} {c.stdout.strip().splitlines()[-1] if c.stdout.strip() else c.stderr[-300:]}")
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    print(" | ".join(out), flush=True)


def main():
    sys.modules["seedlib"] = sys.modules["__main__"]
    for f in sorted(glob.glob(V + "/tools/seeds_*.py")):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        sp.loader.exec_module(importlib.util.module_from_spec(sp))
    ids = sys.argv[2:] or sorted(SPECS)
    for i in ids:
        gen(i)
        if sys.argv[1] == "try":
            try_(i)
    if sys.argv[1] == "try":
        sh(["bash", "/opt/vp/build.sh"])


main()
