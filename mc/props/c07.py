"""References resolve, and every component is the schema of the type it is named after."""
import itertools

import core
import derive as g
import model as m
from derive import COLOR, LEAF, LEAFD, NTL, PAL
from model import A, D, Decl, Field, M, O, Params, STR, TUP, U8, V, Variant, W


def F(n, t, **kw):
    return Field(name=n, ty=t, **kw)


def nt(name, t, **kw):
    return Variant(name=name, style="newtype", fields=[Field(name="0", ty=t)], **kw)


# an interdependent family of types
MID = Decl(name="Mid", shared=True, fields=[F("a", D(LEAF)), F("b", O(D(LEAFD)))])
E1 = Decl(name="E1", kind="enum", shared=True, variants=[
    nt("V", D(MID)), Variant(name="W", style="struct", fields=[F("l", D(LEAF))]),
    Variant(name="X", style="tuple", fields=[F("0", U8), F("1", D(LEAFD))])])
TOP = Decl(name="Top", shared=True, desc="top", fields=[F("m", V(D(MID))), F("e", D(E1), desc="the e")])
E2 = Decl(name="E2", kind="enum", tagging="internal", shared=True, variants=[
    nt("A", D(MID)), Variant(name="B", style="struct", fields=[F("n", D(NTL))])])
E3 = Decl(name="E3", kind="enum", tagging="adjacent", shared=True, variants=[nt("A", D(LEAF)), nt("B", W("Box", D(TOP)))])
REC = Decl(name="Rec", shared=True)
REC.fields = [F("next", O(W("Box", D(REC)))), F("leaf", D(LEAF))]
E4 = Decl(name="E4", kind="enum", tagging="untagged", shared=True, variants=[nt("A", D(LEAFD)), nt("B", D(REC))])
MA, MB = Decl(name="MutA", shared=True), Decl(name="MutB", shared=True)
MA.fields = [F("b", O(W("Box", D(MB))))]
MB.fields = [F("a", V(D(MA))), F("c", D(COLOR))]
INLR = Decl(name="InlR", shared=True, inline=True, fields=[F("m", D(MID)), F("i", D(COLOR))])
NTM = Decl(name="NtMid", shared=True, kind="newtype", fields=[F("0", D(MID))])
TRN = Decl(name="Trn", shared=True, transparent=True, fields=[F("x", O(D(E4)))])
MAPT = Decl(name="MapT", shared=True, kind="tuple", fields=[F("0", M(D(E3))), F("1", D(INLR))])
INM = Decl(name="InMem", shared=True, fields=[F("x", D(MID), inline=True), F("y", O(D(TOP)), inline=True), F("z", O(D(MID)))])
RENM = Decl(name="RenM", rename="Mid", shared=True, fields=[F("q", D(LEAF))])
FAMILY = [MID, E1, TOP, E2, E3, REC, E4, MA, MB, INLR, NTM, TRN, MAPT, INM, RENM]


def ops():
    """(label, type, inline, params, how)"""
    out = []
    for d in FAMILY + [LEAF, COLOR, NTL]:
        t = D(d)
        out.append((d.name, t, False, Params(), "mention"))
        out.append((d.name + "/schema", t, False, Params(), "schema"))
        if d in (REC, MA, MB):
            continue
        out.append((d.name + "/inline", t, True, Params(), "mention"))
    for t in (D(MID), D(E4), D(INLR), D(REC)):
        for l, c in (("Option", O), ("Vec", V), ("Box", lambda t: W("Box", t)), ("map", M), ("arr", lambda t: A(2, t)),
                     ("OptionBox", lambda t: O(W("Box", t))), ("BoxOption", lambda t: W("Box", O(t))),
                     ("VecOption", lambda t: V(O(t))), ("tup", lambda t: TUP(U8, t)), ("OptionOption", lambda t: O(O(t)))):
            out.append(("%s<%s>" % (l, t[1].name), c(t), False, Params(), "mention"))
    for t in (D(MID), D(E4), O(D(MID)), D(INLR), V(D(MID))):
        for p in (Params(desc="d"), Params(nullable=True), Params(desc="d", nullable=True, format="f", example="e")):
            out.append(("%s+%s%s%s" % (m.rust(t), "d" if p.desc else "", "n" if p.nullable else "", "f" if p.format else ""),
                        t, False, p, "mention"))
    return out


def rust_params(p):
    def s(v):
        return "None" if v is None else "Some(%s.to_string())" % m.q(v)
    return "ContextParams { description: %s, nullable: %s, variants: None, format: %s, example: %s }" % (
        s(p.desc), "Some(%s)" % str(p.nullable).lower() if p.nullable is not None else "None", s(p.format), s(p.example))


def explore_case():
    rows = []
    for l, t, inline, p, how in ops():
        ty = m.rust(t)
        if how == "schema":
            run = "vsupport::json!(<%s as OpgModel>::get_schema(cx))" % ty
        else:
            run = "vsupport::json!(cx.mention_schema::<%s>(%s, &%s))" % (ty, str(inline).lower(), rust_params(p))
        rows.append("(%s, |cx: &mut Components| %s)," % (m.q(l), run))
    body = "let ops: &[vsupport::Op] = &[\n%s\n];\nvsupport::explore_mentions(o, ops);" % "\n".join(rows)
    return core.Case("histories", "", body)


CTX1 = [("T", lambda t: t), ("Box", lambda t: W("Box", t)), ("Option", O), ("Vec", V), ("map", lambda t: M(t, "BTreeMap")),
        ("arr", lambda t: A(3, t)), ("tup", lambda t: TUP(t, STR)), ("&", lambda t: W("ref", t)), ("Arc", lambda t: W("Arc", t)),
        ("(T,)", lambda t: TUP(t))]


def container(kind, t, name="Subj", **kw):
    f = Field(name="a" if kind in ("struct",) or kind.endswith(".struct") else "0", ty=t, **kw)
    if kind in ("struct", "newtype"):
        return Decl(name=name, kind=kind, fields=[f])
    if kind == "tuple":
        return Decl(name=name, kind="tuple", fields=[f, Field(name="1", ty=U8)])
    if kind == "transparent":
        f.name = "a"
        return Decl(name=name, kind="struct", transparent=True, fields=[f])
    mode, style = kind.split(".")
    v = Variant(name="Va", style=style, fields=[f] + ([Field(name="1", ty=U8)] if style == "tuple" else []))
    return Decl(name=name, kind="enum", tagging=mode, variants=[v, Variant(name="Vb")])


KINDS = ["struct", "tuple", "newtype", "transparent"] + \
    ["%s.%s" % (a, b) for a in ("external", "internal", "adjacent", "untagged") for b in ("newtype", "tuple", "struct")
     if (a, b) != ("internal", "tuple")]
LEAVES = ["leaf", "leafd", "nt", "ntleaf", "ts", "color", "inl", "unt", "intr", "adj", "ext", "num", "nul"]


def space(tier):
    deep = tier == "thorough"
    sp = g.Space()
    for kind in KINDS:
        for ln in LEAVES:
            for cn, c in CTX1:
                sp.add_decl("%s<%s %s>" % (kind, cn, ln), container(kind, c(PAL[ln])), 2, check_values=False)
        for (cn, c), (cn2, c2) in itertools.product(CTX1, CTX1):
            for ln in ("leaf", "unt") if not deep else LEAVES:
                sp.add_decl("%s<%s<%s %s>>" % (kind, cn, cn2, ln), container(kind, c(c2(PAL[ln]))), 3, check_values=False)
        for cn, c in g.contexts(deep):
            for ln in ("leaf", "color", "inl", "unt") if not deep else LEAVES:
                sp.add_decl("%s<%s %s>" % (kind, cn, ln), container(kind, c(PAL[ln])), 2, check_values=False)
        # two levels: the outer type is the only mention of the middle one
        for k2 in KINDS:
            for cn, c in CTX1 if deep else (CTX1[0], CTX1[2], CTX1[3]):
                for inl in (False, True):
                    mid = container(k2, D(LEAF), name="Middle")
                    mid.inline = inl
                    outer = container(kind, c(D(mid)))
                    if not (g.valid(mid) and g.valid(outer)):
                        continue
                    sp.add("%s<%s %s%s<leaf>>" % (kind, cn, "inline " if inl else "", k2), D(outer), [mid, outer], 3, check_values=False)
    # mentions under every choice of parameters
    for ln in LEAVES:
        for cn, c in CTX1 + g.contexts(deep):
            t = c(PAL[ln])
            sp.add("mentions of %s %s" % (cn, ln), t, (), 12, check_values=False, extra_body="vsupport::mentions::<%s>(o);" % m.rust(t))
        for (cn, c), (cn2, c2) in itertools.product(CTX1, CTX1):
            t = c(c2(PAL[ln]))
            sp.add("mentions of %s<%s %s>" % (cn, cn2, ln), t, (), 12, check_values=False, extra_body="vsupport::mentions::<%s>(o);" % m.rust(t))
    # related names, two at a time in either order, and all of them
    for names, ren in ((NAMES, False), (EXPLICIT, True), (NAMES, True)):
        if ren and names is NAMES and not deep:
            continue
        for pair in itertools.permutations(names, 2):
            sp.add("types named %s%s" % (" and ".join(pair), " by attribute" if ren else ""), *named(pair, ren), ndev=2, check_values=False)
        for order in (names, names[::-1]):
            sp.add("types named %s%s" % (" ".join(order), " by attribute" if ren else ""), *named(order, ren), ndev=len(names), check_values=False)
    # long chains, wide fans and trees of types
    sizes = list(range(3, 21)) + [31, 32, 33, 40, 64, 65, 100] if not deep else list(range(3, 70)) + [100, 127, 128, 129, 256, 257]
    for kind in ("struct", "tuple", "newtype", "external.newtype", "internal.struct", "adjacent.newtype", "untagged.newtype"):
        for cn, c in (CTX1[0], CTX1[2], CTX1[3], CTX1[4]):
            for n in sizes:
                if n > 33 and kind != "struct":
                    continue
                sp.add("chain of %d %s %s" % (n, kind, cn), *chain(n, kind, c), ndev=n, check_values=False)
    for n in sizes:
        for cn, c in CTX1[:8]:
            sp.add("fan of %d %s" % (n, cn), *fan(n, c), ndev=n, check_values=False)
    for depth in (2, 3, 4, 5) if not deep else (2, 3, 4, 5, 6, 7):
        for share in (False, True):
            sp.add("tree of depth %d%s" % (depth, " shared" if share else ""), *tree(depth, share), ndev=depth, check_values=False)
    return sp


# names that one might take for each other
NAMES = ["User", "user", "USER", "uSer", "Users", "Use", "U", "u", "User1", "User2", "User01", "User_", "_User", "User__", "UserName", "User_Name", "user_name",
         "Username", "OptionUser", "User10", "Resu", "resU", "Us\u00e9r", "Us\u00e8r", "Usr", "\u0418\u043c\u044f", "\u0438\u043c\u044f"]
EXPLICIT = ["User", "user", "User.v1", "User.v2", "User-v1", "User_v1", "a.User", "b.User", "1", "2", "01", "."]


def named(names, rename=False):
    """One type mentioning types of these names, each with a field of its own; the last one mentions the first one too."""
    ds = []
    for i, n in enumerate(names):
        fs = [F("v%d" % i, (U8, STR, V(U8), O(STR))[i % 4])]
        if i and i == len(names) - 1:
            fs.append(F("first", D(ds[0])))
        ds.append(Decl(name="N%d" % i if rename else n, rename=n if rename else None, fields=fs))
    ds.append(Decl(name="Fan", fields=[F("f%d" % i, (D(d), V(D(d)))[i % 2]) for i, d in enumerate(ds)]))
    return D(ds[-1]), ds


def chain(n, kind, c):
    """n types, each mentioning the next one."""
    ds = [Decl(name="C%d" % (n - 1), fields=[F("v", U8)])]
    for i in reversed(range(n - 1)):
        ds.append(container(kind, c(D(ds[-1])), name="C%d" % i))
    return D(ds[-1]), ds


def fan(n, c):
    """One type mentioning n others."""
    ds = [Decl(name="L%d" % i, fields=[F("v%d" % (i % 3), D(LEAF) if i % 2 else U8)]) for i in range(n)]
    ds.append(Decl(name="Fan", fields=[F("f%d" % i, c(D(d))) for i, d in enumerate(ds)]))
    return D(ds[-1]), ds


def tree(depth, share):
    """A binary tree of types; shared: both sides of a level mention the same next level."""
    ds, level = [], [Decl(name="T%d_%d" % (depth, i), fields=[F("v", U8)]) for i in range(2 ** depth if not share else 2)]
    ds += level
    for k in reversed(range(depth)):
        if share:
            level = [Decl(name="T%d_%d" % (k, i), fields=[F("l", D(level[0])), F("r", V(D(level[1])))]) for i in range(2 if k else 1)]
        else:
            level = [Decl(name="T%d_%d" % (k, i), fields=[F("l", D(level[2 * i])), F("r", O(D(level[2 * i + 1])))]) for i in range(len(level) // 2)]
        ds += level
    return D(ds[-1]), ds


def dup_case():
    """Recorded finding: the name of a component is the bare identifier."""
    items = """
mod a { use opg::*; #[derive(OpgModel)] pub struct Dup { pub x: u8 } }
mod b { use opg::*; #[derive(OpgModel)] pub struct Dup { pub y: String } }
#[derive(OpgModel)] pub struct Gen<T> { pub g: T }
"""
    body = """
let mut cx = Components::new();
let r1 = vsupport::json!(cx.mention_schema::<a::Dup>(false, &Default::default()));
let r2 = vsupport::json!(cx.mention_schema::<b::Dup>(false, &Default::default()));
o.insert("dup".into(), vsupport::json!({"same": r1 == r2}));
let mut cx = Components::new();
let r1 = vsupport::json!(cx.mention_schema::<Gen<u8>>(false, &Default::default()));
let r2 = vsupport::json!(cx.mention_schema::<Gen<String>>(false, &Default::default()));
o.insert("gen".into(), vsupport::json!({"same": r1 == r2}));
"""
    return core.Case("same identifier", items, body)


def check(tier, t0):
    sp = space(tier)
    hist, dup = explore_case(), dup_case()
    prelude = g.PRELUDE + "\n" + "\n".join(m.render(d) for d in FAMILY)
    allc = [hist, dup] + sp.cases
    results, violations = core.build_and_run("C07", allc, prelude=prelude, deps=("serde_repr",))
    st = tr = depth = outcomes = 0
    if results:
        vs, outcomes, _ = g.compare(sp.cases, results, (), parts=("ref", "components", "verify"), accept=False)
        violations += vs + g.compare_mentions(sp.cases, results)
        r = results.get(hist.id, {})
        if "alone" in r:
            st, tr, depth = r["states"], r["transitions"], r["depth"]
            for i, p in enumerate(r["problems"]):
                violations.append(core.Violation("history %d %s" % (i, p[:60]), p, {"problems": r["problems"]}, hist))
            for l, t, inline, p, how in ops():
                cx = m.Cx()
                ref = m.schema(t, cx) if how == "schema" else m.mention(t, inline, p, cx)
                exp = m.canon({"ref": ref, "components": cx.components})
                ds = g.diff(exp, m.canon(r["alone"][l]))
                if ds:
                    violations.append(core.Violation("op " + l, "mention %s: %s" % (l, ds[0]),
                                                     {"differences": ds, "observed": r["alone"][l]}, hist))
        d = results.get(dup.id, {})
        for k, what in (("dup", "two types with one identifier"), ("gen", "two instantiations of a generic type")):
            if d.get(k, {}).get("same"):
                violations.append(core.Violation("same-name " + k, what + " are given one reference", d, dup))
    cov = {"states": st + len(sp.cases), "transitions": tr + sp.transitions,
           "registry_states": st, "registry_transitions": tr, "longest_shortest_history": depth,
           "traces_validated_against_impl": len(results) + tr, "distinct_outcomes": outcomes,
           "bounds": {"operations": len(ops()), "history length": "unbounded (state graph closed)",
                      "nesting of contexts": 2, "levels of user types": 3},
           "exhaustive": True, "samples": g.samples(sp.cases, results)}
    return core.finish("C07", tier, t0, cov, violations,
                       ["the behaviour of a mention depends only on the registry it is given (states are registries)"])
