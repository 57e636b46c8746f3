"""Recursive types: every directed graph of up to three types."""
import itertools

import core
import derive as g
import model as m
from derive import COLOR
from model import A, D, Decl, Field, M, O, Params, TUP, U8, V, Variant, W

NAMES = ("NodeA", "NodeB", "NodeC", "NodeD") + tuple("Node%d" % i for i in range(4, 70))
EDGES = [
    ("optbox", lambda t: O(W("Box", t)), {}),
    ("vec", V, {}),
    ("map", lambda t: M(t, "BTreeMap"), {}),
    ("box", lambda t: W("Box", t), {}),
    ("arc", lambda t: O(W("Arc", t)), {}),
    ("tup", lambda t: V(TUP(U8, t)), {}),
    ("vecopt", lambda t: V(O(t)), {}),
    ("nullable", V, {"nullable": True, "desc": "n"}),
    ("boxdesc", lambda t: W("Box", t), {"desc": "d", "nullable": True}),
    ("boxopt", lambda t: W("Box", O(t)), {}),
    ("inline", lambda t: O(W("Box", t)), {"inline": True}),
    ("inlinevec", lambda t: V(t), {"inline": True}),
]
# every built-in constructor; behind a pointer where the type would have no size otherwise
AROUND = [("around " + n, lambda t, c=c: c(W("Box", t)), {}) for n, c in g.contexts() if not n.startswith(("mut", "ref")) and "[T" not in n]
AROUND += [("pointer " + n, lambda t, c=c: W("Box", c(t)), {}) for n, c in g.contexts() if not n.startswith(("mut", "ref"))]
EDGE = {e[0]: e for e in EDGES}
SHORT = tuple(EDGE)
EDGE.update((e[0], e) for e in AROUND)
KINDS = ("struct", "tuple", "external", "internal", "adjacent", "untagged", "inline", "newtype", "external.struct", "internal.nt")


def graphs(n):
    """One representative of every directed graph (loops allowed) on n nodes, up to renaming."""
    pairs = [(i, j) for i in range(n) for j in range(n)]
    seen = set()
    for bits in range(1 << len(pairs)):
        es = {p for k, p in enumerate(pairs) if bits >> k & 1}
        canon = min(tuple(sorted((pi[i], pi[j]) for i, j in es)) for pi in itertools.permutations(range(n)))
        if canon in seen:
            continue
        seen.add(canon)
        yield sorted(es)


def node(i, kind, outs, decls):
    """outs: [(target, edge kind)]"""
    d = decls[i]
    d.kind, d.tagging, d.inline = "struct", "external", False
    fs = []
    for k, (j, e) in enumerate(outs):
        _, wrap, kw = EDGE[e]
        fs.append(dict(ty=wrap(D(decls[j])), **kw))
    if kind in ("struct", "inline"):
        d.inline = kind == "inline"
        d.fields = [Field(name="e%d" % k, **kw) for k, kw in enumerate(fs)] + [Field(name="v", ty=U8)]
    elif kind == "tuple":
        d.kind = "tuple"
        d.fields = [Field(name=str(k), **kw) for k, kw in enumerate(fs)] + [Field(name="x", ty=U8), Field(name="y", ty=D(COLOR))]
    elif kind == "newtype":
        if len(fs) != 1:
            return False
        d.kind = "newtype"
        d.fields = [Field(name="0", **fs[0])]
    else:
        d.kind = "enum"
        mode, _, style = kind.partition(".")
        d.tagging = mode
        d.variants = []
        for k, kw in enumerate(fs):
            if style == "struct" or (mode == "internal" and style != "nt"):
                d.variants.append(Variant(name="V%d" % k, style="struct", fields=[Field(name="e", **kw)]))
            elif style == "nt" and kw["ty"][0] not in ("w", "d"):
                return False        # serde refuses a tag in anything but an object
            else:
                d.variants.append(Variant(name="V%d" % k, style="newtype", fields=[Field(name="0", **kw)]))
        d.variants.append(Variant(name="Z", style="struct", fields=[Field(name="z", ty=U8)]))
    return True


class Endless(Exception):
    pass


def predicted(t, how):
    cx = m.Cx()
    try:
        ref = m.schema(t, cx) if how == "schema" else m.mention(t, False, Params(), cx)
    except RecursionError:
        raise Endless
    return {"ref": ref, "components": cx.components}


def make(label, kinds, edges, kind_of):
    """edges: [(i, j, edge kind)]"""
    decls = [Decl(name=NAMES[i], shared=True) for i in range(len(kinds))]
    for i, k in enumerate(kinds):
        if not node(i, k, [(j, e) for a, j, e in edges if a == i], decls):
            return None
    expect = {}
    try:
        for d in decls:
            for how in ("mention", "schema"):
                expect[(d.name, how)] = predicted(D(d), how)
    except Endless:
        return None        # a cycle without a shared component has no finite description
    rows = []
    for d in decls:
        rows.append('("%s/mention", |cx: &mut Components| vsupport::json!(cx.mention_schema::<%s>(false, &Default::default()))),' % (d.name, d.name))
        rows.append('("%s/schema", |cx: &mut Components| vsupport::json!(<%s as OpgModel>::get_schema(cx))),' % (d.name, d.name))
    t = D(decls[0])
    rows.append('("Vec/mention", |cx: &mut Components| vsupport::json!(cx.mention_schema::<Option<Vec<%s>>>(false, &Default::default()))),' % decls[0].name)
    body = "let ops: &[vsupport::Op] = &[\n%s\n];\nvsupport::explore_mentions(o, ops);" % "\n".join(rows)
    try:
        expect[("Vec", "mention")] = predicted(O(V(t)), "mention")
    except Endless:
        return None
    return core.Case(label, "\n".join(m.render(d, True) for d in decls), body, expect=expect, edges=len(edges) + 1)


def space(tier):
    deep = tier == "thorough"
    out, seen = [], set()

    def add(label, kinds, edges):
        try:
            c = make(label, kinds, edges, None)
        except RecursionError:
            return
        if c is not None and c.items not in seen:
            seen.add(c.items)
            out.append(c)

    def name(kinds, edges):
        return "%s {%s}" % ("/".join(kinds), " ".join("%s-%s>%s" % (i if i > 3 else "ABCD"[i], e, j if j > 3 else "ABCD"[j]) for i, j, e in edges))

    # one type: every kind, every edge, up to two loops
    for k in KINDS:
        for e in EDGE:
            es = [(0, 0, e)]
            add(name([k], es), [k], es)
        for e in SHORT:
            for e2 in SHORT:
                es = [(0, 0, e), (0, 0, e2)]
                add(name([k], es), [k], es)
    # two types: every graph, every pair of kinds, one kind of edge per direction
    few = ("optbox", "vec", "map", "box", "inline") if not deep else SHORT
    for gr in graphs(2):
        if not gr:
            continue
        for ks in itertools.product(KINDS, repeat=2):
            for ea, eb in itertools.product(few, repeat=2):
                if not deep and ea != eb and (len(gr) > 2 or "inline" not in (ea, eb)):
                    continue
                es = [(i, j, ea if i < j else eb) for i, j in gr]
                add(name(ks, es), ks, es)
    # three types: every graph, uniform and mixed kinds
    mixes = [(k, k, k) for k in KINDS] + [("struct", "external", "internal"), ("untagged", "newtype", "struct"),
                                         ("inline", "struct", "adjacent"), ("tuple", "inline", "external.struct")]
    if deep:
        mixes += list(itertools.product(("struct", "external", "newtype", "inline"), repeat=3))
    for gr in graphs(3):
        if len({i for e in gr for i in e}) < 3:
            continue
        for ks in mixes:
            for e in ((("optbox",) if len(set(ks)) == 1 else ("vec",)) if not deep else ("optbox", "vec", "box", "inline")):
                es = [(i, j, e) for i, j in gr]
                add(name(ks, es), ks, es)
    # four types: cycles, cliques and chains of cycles
    for gr in ([(0, 1), (1, 2), (2, 3), (3, 0)], [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2)],
               [(i, j) for i in range(4) for j in range(4)], [(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)]):
        for ks in [(k,) * 4 for k in KINDS] + [("struct", "newtype", "external", "untagged"), ("inline", "struct", "inline", "tuple")]:
            for e in ("optbox", "vec", "box"):
                es = [(i, j, e) for i, j in gr]
                add(name(ks, es), ks, es)
    # a cycle through every constructor
    for e in EDGE:
        if e not in SHORT:
            es = [(0, 1, e), (1, 0, "optbox")]
            for ks in (("struct", "struct"), ("struct", "inline"), ("external", "untagged")):
                add(name(ks, es), ks, es)
    # long cycles, without and with a way back to the middle
    for n in list(range(5, 13)) + ([16, 17, 24, 32, 33, 48, 64] if deep else [17, 33]):
        for k in ("struct", "newtype", "external", "adjacent", "untagged", "internal", "tuple"):
            for e in ("optbox", "vec") + (("map", "box") if deep else ()):
                ring = [(i, (i + 1) % n, e) for i in range(n)]
                add("ring of %d %s %s" % (n, k, e), (k,) * n, ring)
                if k != "newtype":
                    add("ring of %d %s %s, back" % (n, k, e), (k,) * n, ring + [(n - 1, n // 2, e), (n // 2, 0, "optbox")])
        mixed = tuple(("struct", "inline", "external", "newtype", "untagged")[i % 5] for i in range(n))
        add("ring of %d mixed" % n, mixed, [(i, (i + 1) % n, "optbox") for i in range(n)])
    return out


def check(tier, t0):
    cases = space(tier)
    results, violations = core.build_and_run("C10", cases, prelude=g.PRELUDE, deps=("serde_repr",))
    st = tr = 0
    outcomes = set()
    for c in cases:
        r = results.get(c.id)
        if not r or "alone" not in r:
            continue
        st += r["states"]
        tr += r["transitions"]
        for p in r["problems"][:2]:
            violations.append(core.Violation(c.name, "%s: %s" % (c.name, p), {"problems": r["problems"]}, c))
        for (n, how), exp in c.expect.items():
            got = r["alone"]["%s/%s" % (n, how)]
            outcomes.add(m.repr_key(got))
            e = g.strip(exp, m.ANNOT)
            a = {"ref": g.strip(got["ref"], m.ANNOT), "components": {k: g.strip(v, m.ANNOT) for k, v in got["components"].items()}}
            ds = g.diff(e, a)
            if ds:
                violations.append(core.Violation(c.name, "%s: %s of %s: %s" % (c.name, how, n, ds[0]),
                                                 {"differences": ds[:10], "observed": got}, c))
                break
    cov = {"states": st, "transitions": tr, "type_graphs": len(cases),
           "traces_validated_against_impl": tr, "distinct_outcomes": len(outcomes),
           "bounds": {"types": "3 (every directed graph), 4 (selected)", "kinds": len(KINDS), "edges": len(EDGES),
                      "history length": "unbounded (closed state graph per type graph)"},
           "exhaustive": True,
           "samples": [{"types": c.name, "program": c.items, "components": results.get(c.id, {}).get("alone", {})} for c in cases[::max(1, len(cases) // 3)][:3]]}
    return core.finish("C10", tier, t0, cov, violations,
                       ["cycles without a shared component (a type inlined into itself) are outside the property"])
