#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and stores them in seeded/.

usage: seed.py BUGS.py [id...]     BUGS.py defines BUGS = [dict(id, property, file, edits=[(old, new)], main, needs, breaks, ...)]
Per bug: apply, build and run the stable tests, run the demonstration with and without it, run the check
of its property against the scratch copy, write seeded/<id>/.  Nothing here is read by a check."""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("SEED_SCRATCH", "/tmp/seedscratch")
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, non-zero when it is broken; everything is built in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
opg = { path = "$repo/opg"%(features)s }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
serde_repr = "0.1"
TOML
cd "$t" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" cargo %(cmd)s --offline -q
%(tail)s
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    if not os.path.isdir(SCRATCH):
        sh("cp -a /repo %s" % SCRATCH)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % ((SCRATCH,) * 3))


def tests():
    """stable tests in the scratch copy"""
    p = sh("cargo test --offline --workspace --no-fail-fast 2>&1", cwd=SCRATCH)
    ok = set(re.findall(r"^test (\S+) \.\.\. ok", p.stdout, re.M))
    bad = set(re.findall(r"^test (\S+) \.\.\. FAILED", p.stdout, re.M))
    return ok, bad, p.stdout


def record(bug, status):
    p = os.path.join(V, "tools", "caught.json")
    d = json.load(open(p)) if os.path.exists(p) else {}
    d[bug] = status
    open(p, "w").write(json.dumps(d, indent=1, sort_keys=True) + "\n")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    reset()
    base_ok, base_bad, _ = tests()
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        reset()
        d = os.path.join(V, "seeded", b["id"])
        tmp = "/tmp/seedstage/" + b["id"]
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/main.rs", "w").write(b["main"])
        open(tmp + "/demo.sh", "w").write(DEMO % {"features": b.get("features", ""), "cmd": b.get("cmd", "run"), "tail": b.get("tail", "exit $?")})
        r0 = sh("bash %s/demo.sh" % tmp, cwd=SCRATCH)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SCRATCH, f)
            s = open(p).read()
            if s.count(old) != 1 and not b.get("nth"):
                print(b["id"], "EDIT matches", s.count(old), repr(old)[:80])
                ok = False
                break
            if b.get("nth"):
                parts = s.split(old)
                n = b["nth"]
                s = old.join(parts[:n]) + new + old.join(parts[n:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        if not ok:
            continue
        diff = sh("git diff", cwd=SCRATCH).stdout
        open(tmp + "/patch.diff", "w").write(diff)
        t_ok, t_bad, out = tests()
        missing = base_ok - t_ok
        r1 = sh("bash %s/demo.sh" % tmp, cwd=SCRATCH)
        c = sh("python3 mc/check.py %s quick" % b["property"], cwd=V, env=dict(os.environ, OPG_REPO=SCRATCH))
        caught = c.returncode == 1 and "VIOLATION property=%s " % b["property"] in c.stdout
        good = r0.returncode == 0 and r1.returncode != 0 and not missing
        print("%-34s %s demo clean=%d patched=%d tests-lost=%s check=%s %s" % (b["id"], "OK " if good else "BAD", r0.returncode, r1.returncode, sorted(missing)[:3], c.returncode, "CAUGHT" if caught else "MISSED"), flush=True)
        if not good:
            print("   clean demo:", r0.stdout[-600:] if r0.returncode else "", "\n   tests:", out[-500:] if missing else "", "\n  patched demo:", r1.stdout[-300:] if r1.returncode == 0 else "")
            continue
        if not caught:
            print("   ", c.stdout[-400:])
        open(tmp + "/meta.json", "w").write(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copytree(tmp, d)
        record(b["id"], "caught" if caught else "missed")
    reset()


main()
