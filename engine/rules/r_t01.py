"""T01: programs which must not compile."""
import json
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import build as BB
from witnesses import PAIRS

LEVEL = "proof"
EXPLANATION = (
    "For each guarantee there is a pair of programs which differ in one respect: one the compiler has to accept, and one "
    "which would break memory safety, or the layout that a derive relies on, and which it has to refuse with the error which is "
    "expected. Both are type-checked and borrow-checked against the current source; neither is run.")


def externs():
    d = BB.dump()
    out = {}
    for line in open(os.path.join(d, "artifacts.json")):
        a = json.loads(line)
        out[a["name"]] = a["file"]
    out[None] = sorted({os.path.dirname(f) for f in out.values()})
    return out


def compiles(ex, tmp, name, text):
    """[error codes]; "" is an error without a code"""
    p = os.path.join(tmp, name + ".rs")
    with open(p, "w") as f:
        f.write("#![allow(warnings)]\n" + text + "\n")
    env = dict(os.environ, PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ.get("PATH", ""))
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "witness", "--emit=metadata",
           "--error-format=json", "-o", os.path.join(tmp, name + ".rmeta"), p]
    for n in ("musli", "musli_core", "musli_zerocopy"):
        cmd += ["--extern", "%s=%s" % (n, ex[n])]
    for d in ex[None]:
        cmd += ["-L", "dependency=" + d]
    r = subprocess.run(cmd, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") == "error" and not m["message"].startswith("aborting"):
            out.append(((m.get("code") or {}).get("code") or "", m["message"].split("\n")[0]))
    if r.returncode and not out:
        out.append(("?", r.stderr[-300:]))
    return out


def check(rep):
    ex = externs()
    with tempfile.TemporaryDirectory() as tmp, ThreadPoolExecutor(8) as pool:
        js = []
        for i, (name, why, good, bad, want) in enumerate(PAIRS):
            js.append((name, why, want, pool.submit(compiles, ex, tmp, "g%d" % i, good), pool.submit(compiles, ex, tmp, "b%d" % i, bad)))
        for name, why, want, g, b in js:
            g, b = g.result(), b.result()
            # a program which should compile and does not means that the pair is out of date
            if not rep.ob("accepted", not g, name, "%s: a correct program does not compile: %s" % (name, g[:1] and g[0][1]), exact=False):
                continue
            if not rep.ob("refused", bool(b), name, "%s: a program compiles which must not: %s" % (name, why)):
                continue
            ok = any(c and re.fullmatch(want, c) or re.search(want, m) for c, m in b)
            rep.ob("as-expected", ok, name, "%s: it is refused with %s, not %s" % (name, b[0], want), exact=False)
    rep.notes.append("%d pairs of programs" % len(PAIRS))
