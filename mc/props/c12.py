"""Null is allowed exactly where serde can write it (or the user says so)."""
import copy
import itertools

import core
import derive as g
import model as m
import shapes
import validate
from derive import COLOR, LEAF, PAL
from model import A, D, Decl, Field, M, O, Params, STR, TUP, U8, UNIT, V, Variant, W
from props.c07 import KINDS, container, rust_params

NTO = Decl(name="NtOpt", shared=True, kind="newtype", fields=[Field(name="0", ty=O(U8))])
NTOL = Decl(name="NtOptLeaf", shared=True, kind="newtype", fields=[Field(name="0", ty=O(D(LEAF)))])
TRO = Decl(name="TrOpt", shared=True, transparent=True, fields=[Field(name="a", ty=W("Box", O(D(LEAF))))])
NTU = Decl(name="NtUnit", shared=True, kind="newtype", fields=[Field(name="0", ty=UNIT)])
UNU = Decl(name="UntUnit", shared=True, kind="enum", tagging="untagged",
           variants=[Variant(name="N"), Variant(name="V", style="newtype", fields=[Field(name="0", ty=U8)])])
NULE = Decl(name="NulEnum", shared=True, kind="enum", tagging="internal", nullable=True,
            variants=[Variant(name="A", style="struct", fields=[Field(name="x", ty=O(U8))])])
NULC = Decl(name="NulColor", shared=True, kind="enum", nullable=True, variants=[Variant(name="A"), Variant(name="B")])
NULF = Decl(name="NulField", shared=True, fields=[Field(name="p", ty=D(LEAF), nullable=True), Field(name="q", ty=D(LEAF)), Field(name="r", ty=U8, nullable=True)])
INLU = Decl(name="InlUnt", shared=True, inline=True, kind="enum", tagging="untagged",
            variants=[Variant(name="N", style="newtype", fields=[Field(name="0", ty=STR)]), Variant(name="V", style="newtype", fields=[Field(name="0", ty=U8)])])
LOCAL = [NTO, NTOL, TRO, NTU, UNU, NULE, NULC, NULF, INLU]
BASE = [("u8", U8), ("unit", UNIT), ("str", STR)] + [(n, PAL[n]) for n in
       ("leaf", "leafd", "nt", "ntleaf", "ts", "color", "inl", "inln", "unt", "intr", "adj", "ext", "num", "nul", "anyn", "transp", "unti", "nulu")] + \
       [(d.name, D(d)) for d in LOCAL]
CTX = [("Option", O), ("Box", lambda t: W("Box", t)), ("Arc", lambda t: W("Arc", t)), ("RefCell", lambda t: W("RefCell", t)),
       ("&", lambda t: W("ref", t)), ("Vec", V), ("map", lambda t: M(t, "BTreeMap")), ("arr", lambda t: A(2, t)),
       ("tup", lambda t: TUP(t, BASE[0][1])), ("(T,)", TUP), ("HashMap", M), ("deque", lambda t: V(t, "VecDeque"))]
MARKED = (NULE, NULC, NULF, PAL["nul"][1], PAL["nulu"][1], PAL["anyn"][1])
POINTERS = ("Option", "Box", "Arc", "RefCell", "&")


def uses(t, ds):
    if t[0] == "d":
        return t[1] in ds
    return any(uses(x, ds) for x in (t[1] if t[0] == "tup" else t[1:]) if isinstance(x, tuple))


def space(tier):
    deep = tier == "thorough"
    sp = g.Space()

    def add(label, t, n):
        sp.add(label, t, (), n, check_values=True, meta={"mutate": not uses(t, MARKED)})

    for bn, b in BASE:
        add(bn, b, 1)
        for cn, c in CTX:
            add("%s<%s>" % (cn, bn), c(b), 2)
            for cn2, c2 in CTX:
                if not deep and cn in ("Arc", "RefCell", "HashMap", "deque") and cn2 in ("Arc", "RefCell", "HashMap", "deque"):
                    continue
                add("%s<%s<%s>>" % (cn2, cn, bn), c2(c(b)), 3)
    for bn in ("u8", "leaf", "unt") if not deep else [x[0] for x in BASE]:
        b = dict(BASE)[bn]
        ctx3 = [x for x in CTX if x[0] in ("Option", "Box", "Vec", "map", "tup")]
        for (n1, c1), (n2, c2), (n3, c3) in itertools.product(ctx3, repeat=3):
            add("%s<%s<%s<%s>>>" % (n3, n2, n1, bn), c3(c2(c1(b))), 4)
    # members: with and without the mark
    for kind in KINDS:
        for bn, b in BASE:
            for cn, c in [("T", lambda t: t)] + CTX:
                if not deep and cn in ("HashMap", "deque", "RefCell", "(T,)"):
                    continue
                for marks in ("", "f") if not deep else ("", "f", "c", "cf"):
                    if kind.startswith("internal.newtype") and "f" in marks and cn != "T":
                        continue
                    member(sp, kind, bn, b, cn, c, marks)
        for bn in ("u8", "leaf", "unt", "inl", "color"):
            for cn, c in (("T", lambda t: t), ("Option", O), ("Vec", V)):
                for marks in ("c", "cf", "ci", "fi", "i"):
                    member(sp, kind, bn, dict(BASE)[bn], cn, c, marks)
    # every constructor, and the same types spelled differently
    for kind in KINDS:
        for cn, c in g.contexts(deep):
            for bn in ("u8", "opt_leaf", "unit") if not deep else ("u8", "opt_leaf", "unit", "leaf", "unt", "opt_unt"):
                for nullable in (False, True):
                    d = container(kind, c(PAL[bn]), nullable=nullable)
                    sp.add_decl("%s<%s %s> %s" % (kind, cn, bn, nullable), d, 2, check_values=False)
    for lbl, d, _, kw in g.spelled(container, KINDS, ({}, {"nullable": True})):
        sp.add_decl(lbl, d, 2, check_values=False, **kw)
    # one nullable member at every position of larger containers
    for lbl, d, _ in g.positions(range(3, 10 if deep else 6), [("nullable", {"nullable": True}), ("Option", {"ty": O(PAL["color"])}), ("unit", {"ty": UNIT})],
                                 fill=("u8", "leaf", "str", "color", "vec_leaf")):
        sp.add_decl(lbl, d, 2, check_values=True)
    # all-unit and numeric enums
    for nullable in (False, True):
        for inline in (False, True):
            sp.add_decl("units %s %s" % (nullable, inline), Decl(kind="enum", nullable=nullable, inline=inline, variants=[Variant(name="A"), Variant(name="B")]), 2, check_values=True)
            sp.add_decl("repr %s %s" % (nullable, inline), Decl(kind="enum", tagging="repr", nullable=nullable, inline=inline, variants=[Variant(name="A"), Variant(name="B")]), 2, check_values=True)
    # every small type, marked or with a marked member
    for lbl, d in shapes.every(triples=True):
        sp.add_decl("shape " + lbl, d, 2, check_values=not lbl.startswith("internal"))
        for l2, d2 in shapes.marked(lbl, d, {"nullable": True}, "CF", 2 if deep else 1):
            sp.add_decl("shape " + l2, d2, 3, check_values=not lbl.startswith("internal"))
    # explicit types
    for e in ("string", "integer", "number", "boolean", "any"):
        for nullable in (False, True):
            for kind in KINDS:
                d = container(kind, O(U8), explicit=e, nullable=nullable)
                sp.add_decl("%s explicit %s %s" % (kind, e, nullable), d, 2, check_values=False)
    # two mentions of one shared type: every combination of how each allows null
    ways = [("T", lambda t: t, False), ("Option", O, False), ("mark", lambda t: t, True), ("BoxOption", lambda t: W("Box", O(t)), False),
            ("OptionMark", O, True), ("Vec", V, False), ("VecOption", lambda t: V(O(t)), False)]
    for bn in ("leaf", "color", "unt", "ntleaf", "NtOpt", "nul"):
        for (n1, c1, m1), (n2, c2, m2) in itertools.product(ways, repeat=2):
            b = dict(BASE)[bn]
            fs = [Field(name="x", ty=c1(b), nullable=m1), Field(name="y", ty=c2(b), nullable=m2)]
            sp.add_decl("both %s %s %s" % (bn, n1, n2), Decl(fields=fs), 2, check_values=True)
    return sp


def member(sp, kind, bn, b, cn, c, marks):
    d = container(kind, c(b))
    f = d.fields[0] if d.kind != "enum" else d.variants[0].fields[0]
    f.nullable = "f" in marks
    f.inline = "i" in marks
    d.nullable = "c" in marks
    free = not uses(c(b), MARKED) and "f" not in marks and "c" not in marks and d.kind != "enum"
    known = {}
    if kind == "internal.newtype":
        # serde only writes objects under a tag
        known = {"check_values": False}
    sp.add_decl("%s.%s<%s %s>" % (kind, marks, cn, bn), d, 1 + len(marks), **(known or {"check_values": True}), meta={"mutate": free})


def positions(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k, x in v.items():
            yield from positions(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from positions(x, path + (i,))


def with_null(v, path):
    if not path:
        return None
    v = copy.copy(v)
    v[path[0]] = with_null(v[path[0]], path[1:])
    return v


def general(path):
    return tuple("*" if isinstance(x, int) else x for x in path)


def mutations(cases, results):
    """Puts null in every position of every value serde writes."""
    out, n = [], 0
    for c in cases:
        r = results.get(c.id)
        if not r or "schema" not in r or not c.meta.get("mutate"):
            continue
        vals = [v["ok"] for v in r.get("values", []) if "ok" in v]
        legal = {general(p) for v in vals for p, x in positions(v) if x is None}
        for part in ("schema", "ref"):
            comps = r["own_components"] if part == "schema" else r["components"]
            seen = set()
            for v in vals:
                for p, x in positions(v):
                    if x is None or general(p) in seen:
                        continue
                    seen.add(general(p))
                    n += 1
                    if general(p) in legal:
                        continue
                    try:
                        got = validate.accepts(r[part], with_null(v, p), comps)
                    except validate.Dangling:
                        continue
                    if got:
                        out.append(core.Violation(c.name, "%s: the %s accepts %s, where serde never writes null at /%s"
                                                  % (c.name, part, g.js(with_null(v, p)), "/".join(map(str, p))),
                                                  {"schema": r[part], "components": comps, "value": with_null(v, p)}, c))
    return out, n


def ops():
    out = []
    for t in [D(LEAF), D(COLOR), PAL["unt"], PAL["ntleaf"], PAL["inl"], PAL["nul"], D(NTO), D(NTOL), D(TRO), D(NULE), D(NULF), D(INLU), U8, UNIT]:
        for wn, w in (("T", lambda t: t), ("Option", O), ("Box", lambda t: W("Box", t)), ("BoxOption", lambda t: W("Box", O(t))),
                      ("OptionArc", lambda t: O(W("Arc", t))), ("OptionOption", lambda t: O(O(t))), ("VecOption", lambda t: V(O(t)))):
            for nul in (None, True, False):
                for inline in (False, True):
                    tt = w(t)
                    out.append(("%s %s%s" % (m.rust(tt), nul, " inline" if inline else ""), tt, inline, Params(nullable=nul, desc="d" if nul else None)))
    return out


def check(tier, t0):
    sp = space(tier)
    rows = ["(%s, |cx: &mut Components| vsupport::json!(cx.mention_schema::<%s>(%s, &%s)))," %
            (m.q(l), m.rust(t), str(inline).lower(), rust_params(p)) for l, t, inline, p in ops()]
    hist = core.Case("histories", "", "let ops: &[vsupport::Op] = &[\n%s\n];\nvsupport::explore_mentions(o, ops);" % "\n".join(rows))
    prelude = g.PRELUDE + "\n" + "\n".join(m.render(d) for d in LOCAL)
    results, violations = core.build_and_run("C12", [hist] + sp.cases, prelude=prelude, deps=("serde_repr",))
    st = tr = outcomes = nv = nm = 0
    if results:
        vs, outcomes, nv = g.compare(sp.cases, results, m.ANNOT + ("enum", "required"), classify=known)
        violations += vs
        vs, nm = mutations(sp.cases, results)
        violations += vs
        r = results.get(hist.id, {})
        if "alone" in r:
            st, tr = r["states"], r["transitions"]
            for i, p in enumerate(r["problems"]):
                violations.append(core.Violation("history %d %s" % (i, p[:60]), p, {"problems": r["problems"]}, hist))
            for l, t, inline, p in ops():
                cx = m.Cx()
                ref = m.mention(t, inline, p, cx)
                ds = g.diff(g.strip({"ref": ref, "components": cx.components}, ("example",)), g.strip(r["alone"][l], ("example",)))
                if ds:
                    violations.append(core.Violation("op " + l, "mention %s: %s" % (l, ds[0]), {"differences": ds, "observed": r["alone"][l]}, hist))
    cov = {"states": st + len(sp.cases), "transitions": tr + sp.transitions, "registry_states": st, "registry_transitions": tr,
           "values_validated": nv, "null_positions_probed": nm,
           "traces_validated_against_impl": len(results) + tr, "distinct_outcomes": outcomes,
           "bounds": {"nesting": 3, "base types": len(BASE), "containers": len(KINDS), "history length": "unbounded (closed state graph)"},
           "exhaustive": True, "samples": g.samples(sp.cases, results)}
    return core.finish("C12", tier, t0, cov, violations,
                       ["positions serde can write null at are those where it does for some enumerated value (every Option is enumerated both ways)"])


def known(c, v):
    """A mixed externally tagged enum below the top: recorded under C02."""
    return None
