"""Meaningless opg attributes are rejected at compile time; documented ones compile
in every order and grouping and mean the same there."""
import itertools
import os
import shutil

import core

# A template has one hole `@X@` per position an attribute can be written in:
# C container, V0.. variants, F0.. fields.  `%s` is the name of the type.
SER = "#[derive(serde::Serialize, OpgModel)]"
OPG = "#[derive(OpgModel)]"
TEMPLATES = [
    ("struct", OPG + "\n@C@\npub struct %s {\n@F0@\npub a: u8,\n@F1@\npub b: String,\n}"),
    ("tuple", OPG + "\n@C@\npub struct %s(\n@F0@\npub u8,\n@F1@\npub String,\n);"),
    ("newtype", OPG + "\n@C@\npub struct %s(\n@F0@\npub String,\n);"),
    ("transparent", SER + "\n#[serde(transparent)]\n@C@\npub struct %s {\n@F0@\npub a: String,\n}"),
    ("unit-enum", OPG + "\n@C@\npub enum %s {\n@V0@\nAa,\n@V1@\nBb,\n}"),
    ("external", OPG + "\n@C@\npub enum %s {\n@V0@\nAa(\n@F0@\nu8,\n),\n@V1@\nBb {\n@F1@\nx: String,\n},\n@V2@\nCc(\n@F2@\nu8,\n@F3@\nString,\n),\n}"),
    ("internal", SER + "\n#[serde(tag = \"t\")]\n@C@\npub enum %s {\n@V0@\nAa {\n@F0@\nx: String,\n},\n@V1@\nBb,\n}"),
    ("adjacent", SER + "\n#[serde(tag = \"t\", content = \"c\")]\n@C@\npub enum %s {\n@V0@\nAa(\n@F0@\nu8,\n),\n@V1@\nBb {\n@F1@\nx: String,\n},\n}"),
    ("untagged", SER + "\n#[serde(untagged)]\n@C@\npub enum %s {\n@V0@\nAa(\n@F0@\nu8,\n),\n@V1@\nBb {\n@F1@\nx: String,\n},\n}"),
    ("internal-newtype", SER + "\n#[serde(tag = \"t\")]\n@C@\npub enum %s {\n@V0@\nAa(\n@F0@\nContent,\n),\n}\n#[derive(serde::Serialize, OpgModel)] pub struct Content { pub z: u8 }"),
    ("repr", "#[derive(serde_repr::Serialize_repr, OpgModel)]\n#[repr(u8)]\n@C@\npub enum %s {\n@V0@\nAa = 1,\n@V1@\nBb = 2,\n}"),
    ("generic", OPG + "\n@C@\npub struct %s<T> {\n@F0@\npub a: T,\n@F1@\npub b: Vec<T>,\n}"),
    ("skipped", SER + "\n@C@\npub struct %s {\n#[serde(skip)]\n@F0@\npub a: u8,\n@F1@\n#[serde(skip_serializing)]\npub b: String,\npub c: u8,\n}"),
    ("skipped-variant", SER + "\n@C@\npub enum %s {\n#[serde(skip)]\n@V0@\nAa(\n@F0@\nu8,\n),\n@V1@\n#[serde(skip_serializing)]\nBb {\n@F1@\nx: String,\n},\nCc(u8),\n}"),
]


def holes(template):
    out = []
    for part in template.split("@")[1::2]:
        if part not in out:
            out.append(part)
    return out


def fill(template, name, attrs):
    """One line per hole keeps every program the same length."""
    s = template % name
    for h in holes(template):
        s = s.replace("@%s@" % h, attrs.get(h, ""))
    return s


# ------------------------------------------------------------ wrong attributes

EXPLICIT = ["string", "number", "integer", "boolean", "any"]
FLAGS = {"C": ["inline", "nullable"], "V": ["inline"], "F": ["inline", "nullable", "optional"]}
VALUES = ['"d"', 'format = "f"', 'example = "e"', 'example_with = "1 + 1"']

UNKNOWN_WORDS = ["foo", "String", "str", "strings", "Inline", "inlined", "inlin", "null", "required", "skip", "rename", "flatten", "description", "format", "example",
                 "example_with", "opg::inline", "inline::opg", "::inline", "object", "array", "default"]
UNKNOWN_NV = ['foo = "x"', 'description = "x"', 'desc = "x"', 'inline = "x"', "inline = true", "nullable = true", 'nullable = ""', 'optional = "x"', "optional = true", 'string = "x"',
              'any = "x"', 'type = "string"', 'Format = "x"', 'formats = "x"', 'examples = "x"', 'example_fn = "x"', 'opg::format = "x"', 'rename = "x"']
UNKNOWN_LIST = ['foo(x)', 'foo()', 'format("x")', 'example("x")', 'example_with("1")', "inline()", "inline(x)", "nullable(true)", "optional()", "string()", 'description("x")', "any(string)"]
ILL_TYPED = ["format = 1", "format = true", "format = 'c'", 'format = b"x"', "format = 1.5", "example = 1", "example = true", "example = 'c'", "example = 1.5", "example = -1", 'example = b"x"',
             "example_with = 1", "example_with = true", "example_with = 'c'", "1", "true", "'c'", "1.5", 'b"x"', "b'x'", "false"]
BAD_EXPR = ["", "1 +", "(", ")", "a b", "1 2", "fn", "+", "a::", "x,", "{", "1;"]
MALFORMED = ["#[opg]", '#[opg = "d"]', "#[opg = 1]", '#[opg("d" "e")]', "#[opg(inline inline)]", "#[opg(,)]"]


def wrong(kind):
    """(label, attribute source lines, known finding)"""
    out = []
    for w in UNKNOWN_WORDS + UNKNOWN_NV + UNKNOWN_LIST:
        out.append(("unknown " + w, w))
    for w in ILL_TYPED:
        out.append(("ill-typed " + w, w))
    for e in BAD_EXPR:
        out.append(("unparsable %s" % e, 'example_with = "%s"' % e))
    for w in ["optional", "nullable"]:
        if w not in FLAGS[kind]:
            out.append(("misplaced " + w, w))
    return out


def duplicates(kind):
    """(label, first, second)"""
    out = []
    for w in FLAGS[kind] + EXPLICIT:
        out.append((w, w))
    for v in VALUES:
        out.append((v, v))
    for a, b in (('"d"', '"e"'), ('"d"', '""'), ('format = "f"', 'format = ""'), ('example = "e"', 'example = "g"'), ('example_with = "1"', 'example_with = "2"'),
                 ('example = "e"', 'example_with = "1"'), ('example_with = "1"', 'example = "e"')):
        out.append((a, b))
    for a, b in itertools.permutations(EXPLICIT, 2):
        out.append((a, b))
    return out


def contexts(tier):
    """How the wrong attribute is surrounded: source of the attributes around `w`."""
    out = [("alone", "#[opg(%s)]")]
    out += [("after description", '#[opg("d", %s)]'), ("before description", '#[opg(%s, "d")]')]
    out += [("split after", "#[opg(inline)] #[opg(%s)]"), ("split before", '#[opg(%s)] #[opg(inline)]'),
            ("after doc", "#[doc = \"x\"] #[opg(%s)]"), ("second in pair", '#[allow(unused)] #[opg(inline, %s)]')]
    if tier != "quick":
        out += [("middle", '#[opg(inline, %s, format = "q")]'), ("after empty", "#[opg()] #[opg(%s,)]"), ("before other", '#[opg(%s)] #[doc = "x"] #[opg("d")]')]
    return out


class Negative:
    def __init__(self, name, source, known=None):
        self.name, self.source, self.known = name, source, known
        self.lines = None
        self.items, self.body = source, ""


def attr_negatives(tier):
    out = []
    ctxs = contexts(tier)
    for tname, t in TEMPLATES:
        for h in holes(t):
            kind = h[0]
            place = "%s.%s" % (tname, h)
            for label, w in wrong(kind):
                for cname, c in ctxs:
                    out.append(Negative("%s %s: %s" % (place, cname, label), (t, {h: c % w})))
            for a, b in duplicates(kind):
                for cname, src in (("together", "#[opg(%s, %s)]" % (a, b)), ("apart", "#[opg(%s)] #[opg(%s)]" % (a, b)),
                                   ("around", "#[opg(%s, %s, %s)]" % (a, 'format = "q"' if "format" not in a else '"q"', b)),
                                   ("far apart", "#[opg(%s)] #[doc = \"x\"] #[opg()] #[opg(%s)]" % (a, b))):
                    out.append(Negative("%s %s: duplicate %s / %s" % (place, cname, a, b), (t, {h: src})))
            for mal in MALFORMED:
                out.append(Negative("%s malformed %s" % (place, mal), (t, {h: mal})))
                out.append(Negative("%s malformed %s after a valid one" % (place, mal), (t, {h: '#[opg("d")] ' + mal})))
            # accepted and ignored: recorded
            if (kind == "V" and tname != "skipped-variant") or (kind == "C" and tname not in ("newtype", "transparent")) or (kind == "F" and tname == "internal-newtype"):
                for w in EXPLICIT:
                    out.append(Negative("%s misplaced explicit type %s" % (place, w), (t, {h: "#[opg(%s)]" % w}), "explicit-type-ignored"))
    return out


def type_negatives():
    out = []
    for nl, u in (("plain", ""), ("described", '#[opg("d")]'), ("inline", "#[opg(inline)]"), ("nullable", "#[opg(nullable)]")):
        out.append(Negative("union %s" % nl, ("%s\n%s\npub union %%s { a: u8, b: u16 }" % (OPG, u), {})))
        out.append(Negative("unit struct %s" % nl, ("%s\n%s\npub struct %%s;" % (OPG, u), {})))
        out.append(Negative("generic union %s" % nl, ("%s\n%s\npub union %%s<T: Copy> { a: T, b: u16 }" % (OPG, u), {})))
        for n in (1, 2, 3):
            vs = ", ".join("Abc"[i] + "v" for i in range(n))
            out.append(Negative("untagged enum of %d unit variants %s" % (n, nl), ("%s\n#[serde(untagged)]\n%s\npub enum %%s { %s }" % (SER, u, vs), {})))
            out.append(Negative("untagged enum of %d unit variants with rules %s" % (n, nl), ("%s\n#[serde(rename_all = \"camelCase\")]\n#[serde(untagged)]\n%s\npub enum %%s { %s }" % (SER, u, vs), {})))
    for n in (2, 3, 4):
        for pat in itertools.product((0, 1), repeat=n):
            if len(set(pat)) == 1:
                continue
            vs = ", ".join("V%d%s" % (i, " = %d" % (i * 3 + 1) if p else "") for i, p in enumerate(pat))
            for head in ("", "#[repr(u8)]", "#[repr(C)]", "#[opg(nullable)]"):
                out.append(Negative("discriminants %s %s" % (pat, head), ("%s\n%s\npub enum %%s { %s }" % (OPG, head, vs), {})))
    return out


def decide_negatives(negs, tier):
    """Compile all of them in one crate; each must have an error inside itself."""
    crate = os.path.join(core.WORK, "c21n")
    shutil.rmtree(os.path.join(crate, "src"), ignore_errors=True)
    toml = ["[package]", 'name = "vc21n"', 'version = "0.0.0"', 'edition = "2021"', "", "[workspace]", "", "[dependencies]", core.DEPS["opg"] % (core.REPO, ""), core.DEPS["serde"],
            core.DEPS["serde_repr"], "", "[profile.dev]", "debug = 0", "incremental = false", "", '[profile.dev.package."*"]', "opt-level = 1", ""]
    core.write_if_changed(os.path.join(crate, "Cargo.toml"), "\n".join(toml))
    nfiles = core.JOBS
    index = {}
    for k in range(nfiles):
        out = ["#![allow(warnings)]", "use opg::OpgModel;", "fn main() {}"]
        line = 4
        fname = "src/bin/n%d.rs" % k
        for i, n in enumerate(negs):
            if i % nfiles != k:
                continue
            t, attrs = n.source
            s = "mod m%d { use opg::OpgModel;\n%s\n}" % (i, fill(t, "Subj", attrs))
            n.items = fill(t, "Subj", attrs)
            c = s.count("\n") + 1
            index.setdefault(fname, []).append((line, line + c - 1, n))
            out.append(s)
            line += c
        core.write_if_changed(os.path.join(crate, fname), "\n".join(out) + "\n")
    ok, errors, stderr = core.cargo_build(crate)
    hit, foreign, reached = set(), [], set()
    import bisect
    starts = {f: [x[0] for x in v] for f, v in index.items()}
    for target, spots, text in errors:
        inside = False
        for fname, ln, _ in spots:
            if fname not in index:
                continue
            reached.add(fname)
            j = bisect.bisect_right(starts[fname], ln) - 1
            if j >= 0 and index[fname][j][0] <= ln <= index[fname][j][1]:
                hit.add(id(index[fname][j][2]))
                inside = True
        if not inside and spots and not target.startswith(crate):
            foreign.append(text)
    if foreign:
        raise core.Infra("the repository does not compile:\n" + "\n".join(foreign)[:3000])
    if not ok and not errors:
        raise core.Infra("build failed with no error message:\n" + stderr[-3000:])
    vs = []
    for n in negs:
        if id(n) not in hit:
            vs.append(core.Violation("accepted:" + n.name, "accepted without an error: " + n.name, {"program": n.items}, n))
    return vs


# ------------------------------------------------------------ valid attributes

def allowed(tname, h):
    """Documented attributes of a place."""
    kind = h[0]
    out = ['"d"', 'format = "f"', 'example = "e"', 'example_with = "1 + 1"'] + FLAGS[kind]
    if (kind == "F" and tname != "internal-newtype") or (kind == "C" and tname in ("newtype", "transparent")):
        out += EXPLICIT
    return out


def group_key(a):
    return "example" if a.startswith("example") else "type" if a in EXPLICIT else a


def groupings(seq):
    """All ways of writing a sequence of attributes as consecutive `#[opg(..)]`."""
    n = len(seq)
    for cut in itertools.product((0, 1), repeat=n - 1) if n else [()]:
        parts, cur = [], [seq[0]]
        for i in range(1, n):
            if cut[i - 1]:
                parts.append(cur)
                cur = [seq[i]]
            else:
                cur.append(seq[i])
        parts.append(cur)
        yield parts


def positives(tier):
    size = 2 if tier == "quick" else 3
    cases = []
    programs = 0
    for tname, t in TEMPLATES:
        for h in holes(t):
            al = allowed(tname, h)
            for n in range(1, size + 1):
                for combo in itertools.combinations(al, n):
                    if len({group_key(a) for a in combo}) < n:
                        continue
                    if n == 3 and tname in ("skipped", "skipped-variant"):
                        continue
                    forms = []
                    for perm in itertools.permutations(combo):
                        for parts in groupings(perm):
                            forms.append(" ".join("#[opg(%s)]" % ", ".join(p) for p in parts))
                    if n == 1:
                        forms += ["#[opg(%s,)]" % combo[0], "#[opg()] #[opg(%s)]" % combo[0], "#[allow(dead_code)] #[opg(%s)] #[doc = \"d\"]" % combo[0]]
                    elif n == 2:
                        forms.append("#[opg(%s)] #[doc = \"x\"] #[opg(%s,)]" % combo)
                    arg = "<u8>" if tname == "generic" else ""
                    items, body = [], ["let mut out = Vec::new();"]
                    for i, f in enumerate(forms):
                        items.append("pub mod f%d { use crate::prelude::*; use opg::*;\n%s\n}" % (i, fill(t, "Subj", {h: f})))
                        body.append("{ let mut q = vsupport::Obs::new(); vsupport::observe::<f%d::Subj%s>(&mut q); out.push(vsupport::Value::Object(q)); }" % (i, arg))
                    body.append("vsupport::put(o, \"forms\", &out);")
                    programs += len(forms)
                    cases.append(core.Case("%s.%s %s" % (tname, h, " ".join(combo)), "\n".join(items), "\n".join(body), edges=len(forms), meta={"forms": forms}))
    # unchanged templates compile: what makes the negatives invalid is the attribute
    for tname, t in TEMPLATES:
        arg = "<u8>" if tname == "generic" else ""
        cases.append(core.Case("%s bare" % tname, fill(t, "Subj", {}), "let mut q = vsupport::Obs::new(); vsupport::observe::<Subj%s>(&mut q);\nvsupport::put(o, \"forms\", &vec![q]);" % arg, meta={"forms": [""]}))
        programs += 1
    # and types next to the undescribable ones
    for name, src in (("discriminants none", OPG + "\npub enum Subj { Aa, Bb, Cc }"), ("discriminants all", OPG + "\npub enum Subj { Aa = 1, Bb = 4, Cc = 7 }"),
                      ("repr none", OPG + "\n#[repr(u8)]\npub enum Subj { Aa, Bb, Cc }"), ("repr all", OPG + "\n#[repr(u8)]\npub enum Subj { Aa = 1, Bb = 4, Cc = 7 }"),
                      ("untagged partly unit", SER + "\n#[serde(untagged)]\npub enum Subj { Aa, Bb(u8) }"), ("internal unit", SER + "\n#[serde(tag = \"t\")]\npub enum Subj { Aa, Bb }"),
                      ("adjacent unit", SER + "\n#[serde(tag = \"t\", content = \"c\")]\npub enum Subj { Aa, Bb }")):
        cases.append(core.Case(name, src, "let mut q = vsupport::Obs::new(); vsupport::observe::<Subj>(&mut q);\nvsupport::put(o, \"forms\", &vec![q]);", meta={"forms": [""]}))
        programs += 1
    return cases, programs


def check(tier, t0):
    negs = attr_negatives(tier) + type_negatives()
    violations = decide_negatives(negs, tier)
    cases, programs = positives(tier)
    results, vs = core.build_and_run("C21", cases, deps=("serde_repr",), prelude="")
    violations += vs
    outcomes = set()
    for c in cases:
        r = results.get(c.id)
        if not r or "forms" not in r:
            continue
        outcomes.add(str(r["forms"][0]))
        for f, d in zip(c.meta["forms"], r["forms"]):
            if d != r["forms"][0]:
                violations.append(core.Violation("order:%s %s" % (c.name, f), "the order or grouping of attributes changes their meaning: %s written as %s" % (c.name, f),
                                                 {"written": f, "schema": d, "other": c.meta["forms"][0], "other schema": r["forms"][0]}, c))
                break
    known = sum(1 for n in negs if n.known)
    cov = {"states": len(negs) + programs, "transitions": len(negs) + programs, "traces_validated_against_impl": len(negs) + programs, "distinct_outcomes": len(outcomes) + 1,
           "rejected_programs": len(negs) - known, "accepted_programs": programs, "exhaustive": True,
           "bounds": {"templates": len(TEMPLATES), "places": sum(len(holes(t)) for _, t in TEMPLATES), "contexts": len(contexts(tier)), "simultaneous valid attributes": 2 if tier == "quick" else 3},
           "samples": [{"program": n.items, "verdict": "rejected"} for n in negs[:: max(1, len(negs) // 3)][:3]]}
    return core.finish("C21", tier, t0, cov, violations,
                       ["a program counts as rejected when rustc reports an error located inside it", "wrong attributes are drawn from the listed vocabulary"])
