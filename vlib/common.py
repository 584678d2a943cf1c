"""Shared machinery of the checks: building from /repo, verdicts, evidence, known findings."""
import json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
NCPU = min(8, os.cpu_count() or 8)
TOOLCHAIN = "nightly-2025-03-20"


def env(**kw):
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TARGET_DIR"] = TARGET
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e.update(kw)
    return e


class Broken(Exception):
    """The machinery could not give a verdict."""


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "parts": {}}
        self.assumptions = []
        self.viol = []
        self.exhaustive = True
        self.rep = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(self.rep, exist_ok=True)
        os.makedirs(TARGET, exist_ok=True)

    @property
    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    def add(self, states=0, transitions=0, traces=0):
        self.cov["states"] += int(states)
        self.cov["transitions"] += int(transitions)
        self.cov["traces_validated_against_impl"] += int(traces)

    def part(self, name, d):
        self.cov["parts"][name] = d

    def sample(self, x):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append(x)

    def violation(self, key, **detail):
        """key: identifies the failing input/call site/history (for the known-findings file)"""
        self.viol.append((key, detail))

    # ---- finish

    def known(self):
        k = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", l)
                if m and m.group(1) == self.pid:
                    k[m.group(2)] = m.group(3)
        return k

    def finish(self):
        known = self.known()
        new, seen = [], set()
        for key, d in self.viol:
            kid = keyid(key)
            if kid in known:
                if kid not in seen:
                    print(f"KNOWN-FINDING: property={self.pid} {known[kid]}")
                seen.add(kid)
            else:
                new.append((key, d))
        for f in os.listdir(self.rep):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(self.rep, f))
        for i, (key, d) in enumerate(new[:10]):
            path = os.path.join(self.rep, f"{self.pid}-{i}.json")
            json.dump({"property": self.pid, "key": keyid(key), "input": key, **d}, open(path, "w"), indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            for k, v in d.items():
                print(f"  {k}: {str(v)[:600]}")
            print(f"  input: {key[:600]}")
        self.cov["exhaustive"] = self.exhaustive
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(self.elapsed(), 2), "violations": len(new)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w"), indent=1)
        print(f"{self.pid} {self.tier}: states={self.cov['states']} transitions={self.cov['transitions']} "
              f"validated={self.cov['traces_validated_against_impl']} violations={len(new)} "
              f"known={len(seen)} {self.elapsed():.1f}s")
        return 1 if new else 0


def keyid(key):
    return hashlib.sha256(key.encode()).hexdigest()[:16]


def run(cmd, cwd=None, timeout=None, e=None, check=False, inp=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace", input=inp)
    except subprocess.TimeoutExpired as x:
        class R:
            pass
        r = R()
        r.returncode = -999
        r.stdout = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        r.stderr = "timeout"
        return r
    if check and p.returncode != 0:
        raise Broken(f"{cmd}: exit {p.returncode}\n{p.stderr[-3000:]}")
    return p


def cargo_build(crate, *args, release=False, e=None, timeout=900):
    """Build a crate of /verif; raises Broken with the compiler output."""
    cmd = ["cargo", "build", "--offline", *args]
    if release:
        cmd.append("--release")
    p = run(cmd, cwd=os.path.join(VERIF, crate), timeout=timeout, e=e)
    if p.returncode != 0:
        raise Broken(f"cargo build of {crate} failed:\n{p.stderr[-6000:]}")
    return p


def repo_macro_builds():
    """Does the proc-macro crate itself compile (default features)?"""
    p = run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "rt"))
    return p.returncode == 0, p.stderr


def pmap(f, xs, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def fresh(path):
    """an empty scratch directory under target/"""
    p = os.path.join(TARGET, path)
    assert p.startswith(TARGET + "/") and ".." not in p
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    return p
