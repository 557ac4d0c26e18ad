"""Compiles the driver and dumps /repo's current source with it."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, ".cache")
REPO = "/repo"
CRATES = ["musli_core", "musli", "musli_zerocopy", "vwitness", "serde_core"]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode())
            h.update(open(p, "rb").read())
            continue
        for d, ds, fs in sorted(os.walk(p)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode())
                h.update(b"\0")
                try:
                    h.update(open(q, "rb").read())
                except OSError:
                    pass
                h.update(b"\0")
    return "3" + h.hexdigest()[:23]


def run(cmd, env, cwd, what):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write("\n%s failed\n" % what)
        sys.exit(2)
    return p.stdout


def dump():
    os.makedirs(CACHE, exist_ok=True)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    drv = os.path.join(ROOT, "driver", "mirdump.rs")
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    dh = tree_hash([drv])
    binp = os.path.join(CACHE, "mirdump-" + dh)
    if not os.path.exists(binp):
        run(["rustc", "+nightly", "--edition", "2021", "-Awarnings", drv, "-o", binp + ".tmp"], env, ROOT, "driver")
        os.rename(binp + ".tmp", binp)
    wit = os.path.join(ROOT, "witness")
    key = tree_hash([os.path.join(REPO, "crates"), os.path.join(REPO, "Cargo.toml"), wit, drv])
    out = os.path.join(CACHE, "dump-" + key)
    if not os.path.exists(os.path.join(out, "done")):
        for d in os.listdir(CACHE):
            if d.startswith("dump-"):
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env, ROOT, "sysroot").strip()
        env["LD_LIBRARY_PATH"] = sysroot + "/lib"
        env["RUSTC_WRAPPER"] = binp
        env["MIRDUMP_CRATES"] = ",".join(CRATES)
        env["MIRDUMP_OUT"] = out
        tgt = os.path.join(CACHE, "target")
        env["CARGO_TARGET_DIR"] = tgt
        # the four analysed crates are always compiled again, their
        # dependencies are not
        for sd in (".fingerprint", "build", "incremental"):
            fp = os.path.join(tgt, "debug", sd)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("musli", "vwitness", "serde_core")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        env["CARGO_INCREMENTAL"] = "0"
        log = run(["cargo", "+nightly", "check", "--offline", "--locked", "--lib", "--message-format=json"], env, wit,
                  "cargo check of /repo's crates")
        with open(os.path.join(out, "artifacts.json"), "w") as f:
            for line in log.splitlines():
                if line.startswith('{"reason":"compiler-artifact"'):
                    a = json.loads(line)
                    for n in a["filenames"]:
                        if n.endswith((".rmeta", ".so")):
                            f.write(json.dumps({"name": a["target"]["name"], "file": n}) + "\n")
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + ".json")):
                sys.stderr.write("no dump of %s\n" % c)
                sys.exit(2)
        open(os.path.join(out, "done"), "w").close()
    lock.close()
    return out


if __name__ == "__main__":
    print(dump())
