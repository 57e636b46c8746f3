"""Inline or shared exactly as asked."""
import copy
import itertools

import core
import derive as g
import model as m
import shapes
from derive import LEAF, PAL
from model import A, D, Decl, Field, M, O, Params, STR, TUP, U8, V, Variant, W
from props.c07 import KINDS, LEAVES, container, rust_params

WRAPS = [("T", lambda t: t), ("Box", lambda t: W("Box", t)), ("Rc", lambda t: W("Rc", t)), ("Arc", lambda t: W("Arc", t)),
         ("RefCell", lambda t: W("RefCell", t)), ("&", lambda t: W("ref", t)), ("&mut", lambda t: W("mut", t)),
         ("Option", O)]
HOLD = [("Vec", V), ("map", lambda t: M(t, "BTreeMap")), ("arr", lambda t: A(2, t)), ("tup", lambda t: TUP(t, STR)), ("(T,)", TUP),
        ("HashSet", lambda t: V(t, "LinkedList"))]
INNER = ["leaf", "leafd", "nt", "ntleaf", "ts", "color", "inl", "inln", "unt", "intr", "adj", "ext", "num", "nul"]


def place(kind, t, where, nullable=False):
    """One container with the request written at `where` (field, variant or both)."""
    d = container(kind, t)
    f = d.fields[0] if d.kind != "enum" else d.variants[0].fields[0]
    if "f" in where:
        f.inline = True
    if "v" in where:
        d.variants[0].inline = True
    if "c" in where:
        d.inline = True
    f.nullable = nullable
    return d


def space(tier):
    deep = tier == "thorough"
    sp = g.Space()
    for kind in KINDS:
        enum = "." in kind
        wheres = ["", "f", "c", "cf"] + (["v", "vf"] if enum else [])
        for where in wheres:
            for ln in INNER if deep or len(where) < 2 else INNER[:7]:
                for wn, w in WRAPS + HOLD:
                    sp.add_decl("%s:%s<%s %s>" % (kind, where, wn, ln), place(kind, w(PAL[ln]), where), 1 + len(where), check_values=False)
            for (wn, w), (wn2, w2) in itertools.product(WRAPS + HOLD, WRAPS + HOLD):
                if wn == "T" or wn2 == "T":
                    continue
                if not deep and (where in ("c", "cf", "vf") or wn in ("Rc", "RefCell", "HashSet") or wn2 in ("Rc", "RefCell", "HashSet")):
                    continue
                for ln in ("leaf",) if not deep else INNER:
                    sp.add_decl("%s:%s<%s<%s %s>>" % (kind, where, wn, wn2, ln), place(kind, w(w2(PAL[ln])), where), 2 + len(where), check_values=False)
            for cn, c in g.contexts(deep):
                for ln in ("leaf", "inl") if not deep else INNER:
                    sp.add_decl("%s:%s<%s %s>" % (kind, where, cn, ln), place(kind, c(PAL[ln]), where), 1 + len(where), check_values=False)
            for ln in INNER:
                sp.add_decl("%s:%s nullable %s" % (kind, where, ln), place(kind, PAL[ln], where, True), 2 + len(where), check_values=False)
            for ln in ("u8", "vec_str", "map_u8", "unit", "tup", "opt_u8"):
                sp.add_decl("%s:%s builtin %s" % (kind, where, ln), place(kind, PAL[ln], where), 1 + len(where), check_values=False)
    # several mentions of one type: every assignment of the request
    for n in (2, 3):
        for asg in itertools.product((False, True), repeat=n):
            for ln in ("leaf", "color", "ntleaf", "unt", "inl", "ext"):
                for wn in (("T",) * n, ("Box", "T", "Option")[:n], ("Option", "Vec", "T")[:n]):
                    ws = dict(WRAPS + HOLD)
                    fs = [Field(name="f%d" % i, ty=ws[w](PAL[ln]), inline=x) for i, (w, x) in enumerate(zip(wn, asg))]
                    lbl = "%s %s %s" % (ln, wn, asg)
                    sp.add_decl("struct " + lbl, Decl(kind="struct", fields=copy.deepcopy(fs)), n, check_values=False)
                    tf = copy.deepcopy(fs)
                    sp.add_decl("tuple " + lbl, Decl(kind="tuple", fields=tf), n, check_values=False)
                    for mode in ("external", "internal", "adjacent", "untagged"):
                        vs = [Variant(name="V%d" % i, style="struct", fields=[copy.deepcopy(f)]) for i, f in enumerate(fs)]
                        sp.add_decl("%s{} %s" % (mode, lbl), Decl(kind="enum", tagging=mode, variants=vs), n, check_values=False)
                        vs = [Variant(name="V%d" % i, style="struct", inline=x, fields=[Field(name="a", ty=f.ty), Field(name="b", ty=D(LEAF))])
                              for i, (f, x) in enumerate(zip(fs, asg))]
                        sp.add_decl("%s{}v %s" % (mode, lbl), Decl(kind="enum", tagging=mode, variants=vs), n, check_values=False)
                        if mode != "internal" or all(w == "T" for w in wn):
                            vs = [Variant(name="V%d" % i, style="newtype", fields=[Field(name="0", ty=f.ty, inline=x and i % 2 == 0)], inline=x and i % 2 == 1)
                                  for i, (f, x) in enumerate(zip(fs, asg))]
                            sp.add_decl("%s() %s" % (mode, lbl), Decl(kind="enum", tagging=mode, variants=vs), n, check_values=False)
    # one request at every position of larger containers
    for lbl, d, _ in g.positions(range(3, 10 if deep else 6), [("inline", {"inline": True}), ("inline Box", {"inline": True, "ty": W("Box", PAL["leaf"])})],
                                 fill=("leaf", "opt_leaf", "color", "ntleaf")):
        sp.add_decl(lbl, d, 2, check_values=False)
    for lbl, d, _ in g.variant_positions(range(2, 8 if deep else 5), [("inline", {"inline": True})]):
        sp.add_decl(lbl, d, 2, check_values=False)
    # the same types spelled differently
    for lbl, d, _, kw in g.spelled(container, KINDS, ({}, {"inline": True}, {"nullable": True})):
        sp.add_decl(lbl, d, 2, check_values=False, **kw)
    # every small type, with the request at each of its sites
    for lbl, d in shapes.every(triples=deep):
        for l2, d2 in shapes.marked(lbl, d, {"inline": True}, "CVF", 2 if deep else 1):
            sp.add_decl("shape " + l2, d2, 3, check_values=False)
    # longer chains of wrappers
    for n in range(3, 8 if deep else 6):
        for wn, w in WRAPS[1:] + HOLD:
            for k in range(len(WRAPS)):
                t = PAL["leaf"]
                for i in range(n):
                    t = w(t) if i % 2 == 0 or k == 0 else WRAPS[k][1](t)
                for where in ("", "f"):
                    sp.add_decl("%d %s/%s:%s" % (n, wn, WRAPS[k][0], where), place("struct", t, where), n, check_values=False)
    # a tree of requests: what is inlined mentions what is not
    for a, b, c in itertools.product((False, True), repeat=3):
        for ta, tb in itertools.product((False, True), repeat=2):
            inner = Decl(name="InnerT", inline=ta, fields=[Field(name="l", ty=D(LEAF), inline=a)])
            mid = Decl(name="MidT", inline=tb, fields=[Field(name="i", ty=D(inner), inline=b), Field(name="j", ty=O(D(inner)))])
            top = Decl(name="TopT", fields=[Field(name="m", ty=D(mid), inline=c), Field(name="n", ty=V(D(mid))), Field(name="o", ty=D(inner))])
            sp.add("tree %s%s%s%s%s" % (a, b, c, ta, tb), D(top), [inner, mid, top], 5, check_values=False)
    return sp


IN = Decl(name="InF", shared=True, fields=[Field(name="x", ty=D(LEAF), inline=True), Field(name="y", ty=O(PAL["color"]), inline=True)])
SH = Decl(name="ShF", shared=True, fields=[Field(name="x", ty=D(LEAF)), Field(name="y", ty=O(PAL["color"]))])


def ops():
    out = []
    for t in [D(LEAF), PAL["color"], PAL["inl"], PAL["ntleaf"], PAL["unt"], D(IN), D(SH), U8]:
        for wn, w in WRAPS + [("Vec", V), ("map", M), ("OptBox", lambda t: O(W("Box", t))), ("BoxOpt", lambda t: W("Box", O(t)))]:
            for inline in (False, True):
                for p in (Params(), Params(desc="d", nullable=True)) if wn in ("T", "Box", "Option") else (Params(),):
                    tt = w(t)
                    out.append(("%s%s%s" % (m.rust(tt), " inline" if inline else "", " +dn" if p.desc else ""), tt, inline, p))
    return out


def explore():
    rows = ["(%s, |cx: &mut Components| vsupport::json!(cx.mention_schema::<%s>(%s, &%s)))," %
            (m.q(l), m.rust(t), str(inline).lower(), rust_params(p)) for l, t, inline, p in ops()]
    return core.Case("histories", "", "let ops: &[vsupport::Op] = &[\n%s\n];\nvsupport::explore_mentions(o, ops);" % "\n".join(rows))


def check(tier, t0):
    sp = space(tier)
    hist = explore()
    prelude = g.PRELUDE + "\n" + m.render(IN) + m.render(SH)
    results, violations = core.build_and_run("C11", [hist] + sp.cases, prelude=prelude, deps=("serde_repr",))
    st = tr = outcomes = 0
    if results:
        vs, outcomes, _ = g.compare(sp.cases, results, m.ANNOT + ("format", "enum"), accept=False)
        violations += vs
        r = results.get(hist.id, {})
        if "alone" in r:
            st, tr = r["states"], r["transitions"]
            for i, p in enumerate(r["problems"]):
                violations.append(core.Violation("history %d %s" % (i, p[:60]), p, {"problems": r["problems"]}, hist))
            for l, t, inline, p in ops():
                cx = m.Cx()
                ref = m.mention(t, inline, p, cx)
                ds = g.diff(m.canon({"ref": ref, "components": cx.components}), m.canon(r["alone"][l]))
                if ds:
                    violations.append(core.Violation("op " + l, "mention %s: %s" % (l, ds[0]), {"differences": ds, "observed": r["alone"][l]}, hist))
    cov = {"states": st + len(sp.cases), "transitions": tr + sp.transitions, "registry_states": st, "registry_transitions": tr,
           "traces_validated_against_impl": len(results) + tr, "distinct_outcomes": outcomes,
           "bounds": {"wrappers": 2, "mentions of one type": 3, "containers": len(KINDS), "history length": "unbounded (closed state graph)"},
           "exhaustive": True, "samples": g.samples(sp.cases, results)}
    return core.finish("C11", tier, t0, cov, violations, ["wrappers nested deeper than two behave as two"])
