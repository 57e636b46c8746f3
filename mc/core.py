"""Shared machinery: generate programs, build them against /repo, run them,
collect observations, and report (evidence, replay files, verdict line)."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OPG_REPO", "/repo")
WORK = os.environ.get("OPG_WORK", os.path.join(VERIF, "work"))
TARGET = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

ENV = dict(os.environ)
ENV.update(
    HOME="/root",
    RUSTUP_TOOLCHAIN="stable",
    CARGO_NET_OFFLINE="true",
    CARGO_TARGET_DIR=TARGET,
    CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="",
    RUST_BACKTRACE="0",
    CARGO_INCREMENTAL="0",
)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
ENV.pop("RUSTFLAGS", None)


class Infra(Exception):
    """The machinery could not decide (exit 2): never a verdict."""


class RepoBroken(Infra):
    """The repository itself does not compile in this configuration."""


class Violation:
    def __init__(self, key, summary, detail, case=None, known=None):
        self.key = key          # stable identification of the failing input
        self.summary = summary  # one line
        self.detail = detail    # json-able
        self.case = case
        self.known = known      # kind of known finding it could be matched to


class Case:
    """One generated program: items of a module plus the body of its `run`."""

    __slots__ = ("id", "items", "body", "expect", "name", "edges", "meta", "lines")

    def __init__(self, name, items, body, expect=None, edges=1, meta=None):
        self.id = None
        self.name = name
        self.items = items
        self.body = body
        self.expect = expect
        self.edges = edges
        self.meta = meta or {}
        self.lines = None


# ---------------------------------------------------------------- building

DEPS = {
    "opg": 'opg = { path = "%s/opg"%s }',
    "serde": 'serde = { version = "1", features = ["derive", "rc"] }',
    "serde_json": 'serde_json = "1"',
    "serde_repr": 'serde_repr = "0.1"',
    "chrono": 'chrono = { version = "0.4", features = ["serde"] }',
    "uuid": 'uuid = { version = "1", features = ["serde"] }',
    "http": 'http = "0.2"',
}


def _ws_support():
    """The support crate names /repo; point it at REPO when that differs."""
    src = os.path.join(VERIF, "harness", "support")
    if REPO == "/repo":
        return src
    dst = os.path.join(WORK, "support")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    p = os.path.join(dst, "Cargo.toml")
    s = open(p).read().replace("/repo/opg", REPO + "/opg")
    open(p, "w").write(s)
    return dst


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def cargo_build(crate_dir, extra=(), cmd="build", jobs=JOBS):
    """Returns (ok, errors) with errors = [(target, file, line, text)]."""
    cmd = ["cargo", cmd, "--offline", "--message-format=json", "--keep-going",
           "-j", str(jobs), *extra]
    p = subprocess.run(cmd, cwd=crate_dir, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    errors = []
    for ln in p.stdout.splitlines():
        if not ln.startswith("{"):
            continue
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message":
            continue
        msg = m["message"]
        if msg.get("level") not in ("error", "error: internal compiler error"):
            continue
        target = m.get("target", {}).get("src_path", "")
        spots = []

        def walk(sp):
            spots.append((sp["file_name"], sp["line_start"], sp.get("is_primary", False)))
            e = sp.get("expansion")
            if e:
                walk(e["span"])

        for sp in msg.get("spans", []):
            walk(sp)
        errors.append((target, spots, msg.get("rendered") or msg.get("message")))
    return p.returncode == 0, errors, p.stderr


HEADER = """#![allow(warnings)]
#![recursion_limit = "512"]
"""


def build_and_run(prop, cases, prelude="", deps=(), opg_features=(), chunks=None,
                  default_features=True, timeout=240, tag=""):
    """Compile all cases against REPO and run them.

    Returns (results, violations): results[case.id] is the observation dict, or
    {"panic": text} / {"abort": text}."""
    chunks = chunks or min(JOBS, max(1, (len(cases) + 39) // 40))
    # a binary of more than about 2 MB of source takes the compiler gigabytes
    size = sum(len(c.items) + len(c.body) for c in cases)
    if size > 1300000 * chunks:
        chunks = (size // 1300000 + JOBS) // JOBS * JOBS
    crate = os.path.join(WORK, prop.lower() + tag)
    shutil.rmtree(os.path.join(crate, "src"), ignore_errors=True)
    support = _ws_support()
    name = ("v" + prop.lower() + tag).replace("-", "_")
    feats = ""
    if not default_features:
        feats += ", default-features = false"
    if opg_features:
        feats += ", features = [%s]" % ", ".join('"%s"' % f for f in opg_features)
    toml = ["[package]", 'name = "%s"' % name, 'version = "0.0.0"', 'edition = "2021"', "",
            "[workspace]", "", "[dependencies]"]
    toml.append(DEPS["opg"] % (REPO, feats))
    toml.append(DEPS["serde"])
    toml.append(DEPS["serde_json"])
    if default_features:
        toml.append('vsupport = { path = "%s" }' % support)
    toml.append('vquiet = { path = "%s/harness/quiet" }' % VERIF)
    for d in deps:
        toml.append(DEPS[d])
    toml += ["", "[profile.dev]", "debug = 0", "incremental = false", "opt-level = 0",
             "", "[profile.dev.build-override]", "opt-level = 0", "debug = 0", "",
             '[profile.dev.package."*"]', "opt-level = 1", ""]
    write_if_changed(os.path.join(crate, "Cargo.toml"), "\n".join(toml))
    for i, c in enumerate(cases):
        c.id = i
    index = {}
    buckets = [cases[k::chunks] for k in range(chunks)]
    for k, bucket in enumerate(buckets):
        out = [HEADER]
        if not default_features:
            # a support crate built with default features would switch them back on
            out.append('extern crate self as vsupport;\n#[path = "%s/harness/support/src/lib.rs"] mod vs;\n'
                       'pub use vs::*;' % VERIF)
        out.append("mod prelude {\n%s\n}\n" % prelude)
        line = sum(x.count("\n") + 1 for x in out) + 1
        fname = "src/bin/b%d.rs" % k
        for c in bucket:
            text = ("mod c%d {\nuse crate::prelude::*;\nuse opg::*;\n%s\npub fn run(o: &mut vsupport::Obs) {\n%s\n}\n}"
                    % (c.id, c.items, c.body))
            n = text.count("\n") + 1
            c.lines = (fname, line, line + n - 1)
            index.setdefault(fname, []).append((line, line + n - 1, c))
            out.append(text)
            line += n
        out.append("fn main() {\n    vsupport::quiet_panics();")
        # resume support: skip the first N cases (after an abort)
        out.append("    let only: Option<u32> = std::env::args().nth(1).map(|x| x.parse().unwrap());")
        for c in bucket:
            out.append("    if only.map_or(true, |k| k == %d) { vsupport::case(%d, c%d::run); }"
                       % (c.id, c.id, c.id))
        out.append("}")
        write_if_changed(os.path.join(crate, fname), "\n".join(out) + "\n")
    ok, errors, stderr = cargo_build(crate)
    if not ok and not errors:
        # the compiler was ended for want of memory: once more, with fewer at a time
        ok, errors, stderr = cargo_build(crate, jobs=2)
    violations = []
    if not ok:
        hit = {}
        foreign = []
        for target, spots, text in errors:
            found = None
            for fname, ln, _ in spots:
                for lo, hi, c in index.get(fname, ()):
                    if lo <= ln <= hi:
                        found = c
                        break
                if found:
                    break
            if found is None:
                foreign.append((target, text))
            else:
                hit.setdefault(found.id, (found, []))[1].append(text)
        own = [f for f in foreign if not f[0].startswith(crate)]
        if own:
            raise RepoBroken("the repository does not compile:\n" + "\n".join(t for _, t in own)[:4000])
        if not hit:
            raise Infra("build failed with no attributable error:\n%s\n%s"
                        % ("\n".join(t for _, t in foreign)[:3000], stderr[-3000:]))
        for c, texts in hit.values():
            violations.append(Violation("compile:" + c.name,
                                        "a valid program is rejected at compile time: " + c.name,
                                        {"compiler": texts[:3]}, c))
        return {}, violations
    results = {}
    procs = []
    byid = {c.id: c for c in cases}
    for k, bucket in enumerate(buckets):
        exe = os.path.join(TARGET, "debug", "b%d" % k)
        # bins of different crates share names in one target dir: copy away
        mine = os.path.join(crate, "bin")
        os.makedirs(mine, exist_ok=True)
        dst = os.path.join(mine, "b%d" % k)
        shutil.copy2(exe, dst)
        procs.append((k, bucket, dst, subprocess.Popen([dst], stdout=subprocess.PIPE,
                                                      stderr=subprocess.DEVNULL, env=ENV)))
    for k, bucket, exe, p in procs:
        try:
            so, _ = p.communicate(timeout=timeout)
            how = "aborted (exit status %s)" % p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
            how = "did not terminate within %d s" % timeout
        last = parse_lines(so, results)
        if p.returncode != 0 or last is not None:
            if last is None:
                raise Infra("program %s failed outside a case: %s" % (exe, how))
            results[last] = {"abort": how}
            # the cases after the culprit, one process each
            todo = [c for c in bucket if c.id not in results]
            for c in todo:
                try:
                    q = subprocess.run([exe, str(c.id)], stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, timeout=20, env=ENV)
                    l2 = parse_lines(q.stdout, results)
                    if l2 is not None:
                        results[c.id] = {"abort": "aborted (exit status %s)" % q.returncode}
                except subprocess.TimeoutExpired:
                    results[c.id] = {"abort": "did not terminate"}
                if sum(1 for r in results.values() if "abort" in r) > 20:
                    break
    for i, r in results.items():
        c = byid[i]
        if "panic" in r or "abort" in r:
            what = r.get("panic") or r.get("abort")
            violations.append(Violation("run:" + c.name,
                                        "describing a valid type fails: %s (%s)" % (c.name, what),
                                        r, c))
    if not violations and len(results) != len(cases):
        raise Infra("only %d of %d cases reported" % (len(results), len(cases)))
    return results, violations


def parse_lines(raw, results):
    """Feeds results; returns the id of a case that started and never finished."""
    open_id = None
    for ln in raw.decode("utf-8", "replace").splitlines():
        if ln.startswith("B "):
            open_id = int(ln[2:])
        elif ln.startswith("R "):
            _, i, js = ln.split(" ", 2)
            try:
                results[int(i)] = json.loads(js)
            except ValueError:
                continue
            open_id = None
        elif ln.startswith("P "):
            _, i, text = (ln + " ").split(" ", 2)
            results[int(i)] = {"panic": text.strip() or "panic"}
            open_id = None
    return open_id


# --------------------------------------------------------------- reporting

def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(path))
    except OSError:
        return {"findings": [], "fixed": []}


def replay_text(prop, v):
    out = ["property: %s" % prop, "input: %s" % v.key, "what: %s" % v.summary, ""]
    if v.case is not None:
        out += ["---- program (module of a binary depending on /repo/opg) ----", v.case.items,
                "fn run(o: &mut vsupport::Obs) {", v.case.body, "}", ""]
    out += ["---- observed / expected ----", json.dumps(v.detail, indent=1, ensure_ascii=False, default=str)]
    return "\n".join(out) + "\n"


def finish(prop, tier, t0, coverage, violations, assumptions, level="model_checking"):
    """Writes evidence, prints the verdict, returns the exit code."""
    kf = [f for f in known_findings()["findings"] if f["property"] == prop]
    # a recorded defect of another property met on the way is reported there
    foreign = {f["id"] for f in known_findings()["findings"] if f["property"] != prop}
    foreign -= {f["id"] for f in kf}
    violations = [v for v in violations if v.known is None or v.known not in foreign]
    matched = {}
    fresh = []
    for v in violations:
        hit = None
        for f in kf:
            if v.known is not None and v.known == f["id"]:
                hit = f
            elif v.key in f.get("inputs", ()):
                hit = f
            if hit:
                break
        if hit:
            matched.setdefault(hit["id"], (hit, []))[1].append(v)
        else:
            fresh.append(v)
    coverage = dict(coverage)
    coverage["known_finding_hits"] = {k: len(vs) for k, (_, vs) in matched.items()}
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": level,
        "coverage": coverage, "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        f.write("\n")
    summary = {k: coverage[k] for k in ("states", "transitions", "traces_validated_against_impl",
                                        "distinct_outcomes") if k in coverage}
    print("%s %s: %s wall=%.1fs" % (prop, tier, summary, time.time() - t0))
    for fid, (f, vs) in sorted(matched.items()):
        print("KNOWN-FINDING: property=%s %s (%s, %d inputs)" % (prop, f["what"], fid, len(vs)))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, old))
    if fresh:
        fresh.sort(key=lambda v: (len(v.case.items) if v.case is not None else 0, v.key))
        first = None
        for v in fresh[:10]:
            h = hashlib.sha1(v.key.encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s.txt" % (prop, h))
            with open(path, "w") as f:
                f.write(replay_text(prop, v))
            first = first or path
            print("  %s" % v.summary[:300])
        print("%d violating inputs" % len(fresh))
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    return 0


# ------------------------------------------------- explorers over the runtime

def run_static(prop, tier, t0, assumptions, timeout=None):
    """Builds and runs one binary of harness/rt: an exhaustive explorer which prints
    its own report."""
    src = os.path.join(VERIF, "harness", "rt")
    crate = os.path.join(WORK, "rt-" + prop.lower())
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(os.path.join(crate, "src", "bin"))
    shutil.copy2(os.path.join(src, "src", "lib.rs"), os.path.join(crate, "src", "lib.rs"))
    name = prop.lower()
    shutil.copy2(os.path.join(src, "src", "bin", name + ".rs"), os.path.join(crate, "src", "bin", name + ".rs"))
    toml = open(os.path.join(src, "Cargo.toml")).read().replace("/repo/opg", REPO + "/opg")
    open(os.path.join(crate, "Cargo.toml"), "w").write(toml)
    ok, errors, stderr = cargo_build(crate)
    if not ok:
        raise Infra("the explorer does not compile:\n%s\n%s" % ("\n".join(t for _, _, t in errors)[:4000], stderr[-2000:]))
    exe = os.path.join(crate, name)
    shutil.copy2(os.path.join(TARGET, "debug", name), exe)
    timeout = timeout or (300 if tier == "quick" else 3600)
    violations = []
    rep = {}
    try:
        p = subprocess.run([exe, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        how = None if p.returncode == 0 else "exit status %s: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-300:])
        out = p.stdout
    except subprocess.TimeoutExpired as e:
        how, out = "did not terminate within %d s" % timeout, e.stdout or b""
    last = ""
    for ln in out.decode("utf-8", "replace").splitlines():
        if ln.startswith("REPORT "):
            rep = json.loads(ln[7:])
        elif ln.startswith("AT "):
            last = ln[3:]
    if how or not rep:
        violations.append(Violation("run", "exploration does not finish: %s %s" % (how, last), {"how": how, "at": last}))
    for pr in rep.get("problems", ()):
        violations.append(Violation(pr["key"], pr["what"], pr["detail"]))
    cov = {k: v for k, v in rep.items() if k != "problems"}
    cov.setdefault("states", 0)
    cov.setdefault("transitions", 0)
    cov.setdefault("samples", [])
    cov["traces_validated_against_impl"] = cov["transitions"]
    cov["exhaustive"] = True
    return finish(prop, tier, t0, cov, violations, assumptions)
