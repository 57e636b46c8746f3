"""Documents are reproducible, and their lists follow the declaration."""
import copy
import itertools
import json
import os
import subprocess

import core
import derive as g
import model as m
import shapes
from derive import FILL, PAL
from model import D, Decl, Field, O, STR, TUP, U8, V, Variant
from props.c07 import KINDS, container

NAMES = ("zeta", "b", "Alpha", "m_1", "a", "_x", "r#type", "ünder")
VNAMES = ("Zeta", "B", "Alpha", "M1", "A", "Xx", "Type", "Über")
MODES = ("external", "internal", "adjacent", "untagged", "repr")
TYPES = ("u8", "leaf", "str", "opt_leaf", "vec_leaf", "color", "inl", "unt")


def variant(name, style, i, mode):
    if mode == "repr" or style == "unit":
        return Variant(name=name)
    if style == "newtype":
        return Variant(name=name, style="newtype", fields=[Field(name="0", ty=PAL["leaf" if mode == "internal" else TYPES[i % len(TYPES)]])])
    if style == "tuple" and mode != "internal":
        return Variant(name=name, style="tuple", fields=[Field(name="0", ty=PAL[TYPES[i % len(TYPES)]]), Field(name="1", ty=U8)])
    return Variant(name=name, style="struct", fields=[Field(name=n, ty=PAL[TYPES[(i + k) % len(TYPES)]]) for k, n in enumerate(("z", "a", "m"))])


def space(tier):
    deep = tier == "thorough"
    sp = g.Space()

    def add(label, d, n):
        t = D(d)
        if g.valid(d, False):
            sp.add(label, t, [d], n, check_values=False, extra_body="vsupport::texts::<%s>(o);" % m.rust(t))

    def add_type(label, t, n):
        sp.add(label, t, (), n, check_values=False, extra_body="vsupport::texts::<%s>(o);" % m.rust(t))

    # fields in every order
    top = 5 if deep else 4
    for n in range(0, top + 1):
        for names in itertools.permutations(NAMES[:top], n):
            for kind in ("struct", "external.struct", "internal.struct", "untagged.struct", "adjacent.struct"):
                fs = [Field(name=x, ty=PAL[TYPES[i % len(TYPES)]]) for i, x in enumerate(names)]
                if kind == "struct":
                    d = Decl(fields=fs)
                else:
                    mode = kind.split(".")[0]
                    d = Decl(kind="enum", tagging=mode, variants=[Variant(name="Va", style="struct", fields=fs), Variant(name="Ub", style="struct", fields=[Field(name="q", ty=STR)])])
                add("%s {%s}" % (kind, " ".join(names)), d, n)
                for opt in range(n):
                    for how in ({"optional": True}, {"skip_if": "toggle"}, {"skip": "skip"}, {"rename": "kk"}):
                        if n < 3 or deep or names[0] == NAMES[0]:
                            e = copy.deepcopy(d)
                            f = (e.fields if kind == "struct" else e.variants[0].fields)[opt]
                            for k, v in how.items():
                                setattr(f, k, v)
                            add("%s {%s} %s %d" % (kind, " ".join(names), list(how)[0], opt), e, n)
            if n:
                for tag in ("tag", "a_tag", "zz"):
                    add("tagged %s {%s}" % (tag, " ".join(names)), Decl(struct_tag=tag, fields=[Field(name=x, ty=PAL[TYPES[i % len(TYPES)]]) for i, x in enumerate(names)]), n)
    for names in itertools.permutations(NAMES, 2 if not deep else 3):
        for rule in ("camelCase", "UPPERCASE", "kebab-case", "PascalCase", "SCREAMING-KEBAB-CASE"):
            if rule == "camelCase" and "ünder" in names:  # serde itself rejects it
                continue
            add("%s {%s}" % (rule, " ".join(names)), Decl(rename_all=rule, fields=[Field(name=x, ty=U8) for x in names]), 2)
    # variants in every order
    for mode in MODES:
        for n in range(1, top + 1):
            for names in itertools.permutations(VNAMES[:top], n):
                for styles in [["unit"] * n, ["newtype"] * n, ["struct"] * n, [("unit", "newtype", "struct", "tuple")[i % 4] for i in range(n)],
                               [("tuple", "unit", "newtype", "struct")[i % 4] for i in range(n)]]:
                    if mode == "untagged" and set(styles) == {"unit"} or mode == "repr" and set(styles) != {"unit"}:
                        continue
                    d = Decl(kind="enum", tagging=mode, variants=[variant(x, s, i, mode) for i, (x, s) in enumerate(zip(names, styles))])
                    add("%s [%s] %s" % (mode, " ".join(names), styles[:4]), d, n)
                    for rule in ("camelCase", "SCREAMING_SNAKE_CASE") if n < 4 and "Über" not in names else ():
                        e = copy.deepcopy(d)
                        e.rename_all = rule
                        add("%s [%s] %s %s" % (mode, " ".join(names), styles[:4], rule), e, n)
                    for at in range(n if n < 4 else 0):
                        for how in ({"skip": "skip"}, {"rename": "nn"}):
                            e = copy.deepcopy(d)
                            for k, v in how.items():
                                setattr(e.variants[at], k, v)
                            add("%s [%s] %s %s %d" % (mode, " ".join(names), styles[:4], list(how)[0], at), e, n)
    # numbers in every order
    for n in range(2, top + 1):
        for ds in itertools.permutations((7, 1, 200, 30, 0)[:top], n):
            add("numbers [%s]" % " ".join(map(str, ds)), Decl(kind="enum", tagging="repr", variants=[Variant(name=VNAMES[i], disc=str(x)) for i, x in enumerate(ds)]), n)
            add("numbered names [%s]" % " ".join(map(str, ds)), Decl(kind="enum", variants=[Variant(name=VNAMES[i], disc=str(x)) for i, x in enumerate(ds)]), n)
    # every small type, with something said at each of its sites
    for lbl, d in shapes.every(triples=deep, most=3 if deep else 2):
        add("shape " + lbl, d, 1)
        for marks, where in (({"inline": True}, "CVF"), ({"nullable": True}, "CF"), ({"desc": "d@", "format": "f@", "example": "e@"}, "CVF"), ({"optional": True}, "F"), ({"rename": "n@"}, "VF")):
            for l2, d2 in shapes.marked(lbl, d, marks, where, 1):
                add("shape " + l2, d2, 2)
    # elements in every order
    for n in range(2, 4 if not deep else 5):
        for ts in itertools.permutations(TYPES, n):
            add_type("tuple (%s)" % " ".join(ts), TUP(*[PAL[t] for t in ts]), n)
            add("tuple struct (%s)" % " ".join(ts), Decl(kind="tuple", fields=[Field(name=str(i), ty=PAL[t]) for i, t in enumerate(ts)]), n)
            for mode in ("external", "adjacent", "untagged"):
                add("%s tuple (%s)" % (mode, " ".join(ts)), Decl(kind="enum", tagging=mode, variants=[
                    Variant(name="Va", style="tuple", fields=[Field(name=str(i), ty=PAL[t]) for i, t in enumerate(ts)])]), n)
    for n in range(2, 11):
        for k in range(1, 8):
            add_type("tuple of %d by %d" % (n, k), TUP(*[PAL[TYPES[(i * k) % len(TYPES)]] for i in range(n)]), n)
    # sizes
    for n in list(range(5, 21)) + [31, 32, 33, 64, 65] + ([100, 128, 129, 200, 256] if deep else [100]):
        for k in (1, 7, 11, 13):
            if n % k == 0 and k > 1:
                continue
            add("struct of %d by %d" % (n, k), Decl(fields=[Field(name="f%d" % (i * k % n), ty=PAL[FILL[i % len(FILL)]], optional=i % 3 == 2) for i in range(n)]), n)
            add("tuple struct of %d by %d" % (n, k), Decl(kind="tuple", fields=[Field(name=str(i), ty=PAL[TYPES[i * k % len(TYPES)]]) for i in range(n)]), n)
            for mode in MODES:
                for styles in (("unit",), ("newtype",), ("struct", "tuple", "newtype", "unit")):
                    if mode == "untagged" and styles == ("unit",) or mode == "repr" and styles != ("unit",):
                        continue
                    add("%s%s of %d by %d" % (mode, styles, n, k), Decl(kind="enum", tagging=mode, variants=[
                        variant("V%d" % (i * k % n), styles[i % len(styles)], i, mode) for i in range(n)]), n)
    # every type anywhere
    for kind in KINDS:
        for tn in PAL:
            add("%s<%s>" % (kind, tn), container(kind, PAL[tn]), 1)
            add("%s<nullable %s>" % (kind, tn), container(kind, PAL[tn], nullable=True), 2)
    for tn in PAL:
        add_type(tn, PAL[tn], 1)
        for cn, c in g.contexts(False):
            add_type("%s %s" % (cn, tn), c(PAL[tn]), 2)
    return sp


def documents(deep):
    """API documents: built again and again, lists and maps in their order."""
    out = []
    words = ("zz", "b", "Aa", "m_1", "a")
    for n in range(1, 6 if deep else 5):
        for ws in itertools.permutations(words[:5 if deep else 4], n):
            w = list(ws)
            out.append(("tags " + " ".join(w), "describe_api! { tags: { %s } }" % ", ".join('%s("d%d")' % (x, i) for i, x in enumerate(w)),
                        [("tags", sorted(w))]))
            out.append(("servers " + " ".join(w), "describe_api! { servers: { %s } }" % ", ".join(m.q(x) for x in w), [("servers", w)]))
            out.append(("paths " + " ".join(w), "describe_api! { paths: { %s } }" % ", ".join("(%s): { GET: { 200: None } }" % m.q(x) for x in w),
                        [("paths", ["/" + x for x in w])]))
            out.append(("operation tags " + " ".join(w), "describe_api! { paths: { (\"p\"): { GET: { tags: { %s } } } } }" % ", ".join(w),
                        [("paths//p/get/tags", w)]))
            out.append(("parameters " + " ".join(w), "describe_api! { paths: { (\"p\"): { parameters: { %s }, GET: { parameters: { %s } } } } }"
                        % (", ".join("(query %s: Leaf)" % x for x in w), ", ".join("(header %s)" % m.q(x) for x in w)),
                        [("paths//p/get/parameters", sorted(w)), ("paths//p/parameters", sorted(w))]))
            out.append(("callbacks " + " ".join(w), "describe_api! { paths: { (\"p\"): { GET: { callbacks: { %s } } } } }"
                        % ", ".join("%s: { (%s): { GET: {} }, (\"c\"): { GET: {} }, (\"b\"): {} }" % (x, m.q(x)) for x in w),
                        [("paths//p/get/callbacks", sorted(w))] + [("paths//p/get/callbacks/" + x, list(dict.fromkeys(["/" + x, "/c", "/b"]))) for x in w if x != "b"]))
            out.append(("security " + " ".join(w), "describe_api! { paths: { (\"p\"): { GET: { security: { %s, %s } } } } }"
                        % (" && ".join('%s["z", "a", "m"]' % m.q(x) for x in w), ", ".join(m.q(x) for x in w)),
                        [("paths//p/get/security", [sorted(w)] + [[x] for x in w])]))
            out.append(("security_schemes " + " ".join(w), "describe_api! { security_schemes: { %s } }" % ", ".join("(http %s): { scheme: Basic }" % m.q(x) for x in w),
                        [("components/securitySchemes", sorted(w))]))
    for n in range(1, 5):
        for cs in itertools.permutations(("500", "200", "404", "101"), n):
            out.append(("responses " + " ".join(cs), "describe_api! { paths: { (\"p\"): { GET: { %s } } } }" % ", ".join("%s: Leaf" % c for c in cs),
                        [("paths//p/get/responses", sorted(cs))]))
    order = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]
    for n in range(1, 4):
        for ms in itertools.permutations(order, n):
            out.append(("methods " + " ".join(ms), "describe_api! { paths: { (\"p\"): { %s } } }" % ", ".join("%s: {}" % x.upper() for x in ms),
                        [("paths//p", sorted(ms, key=order.index))]))
    names = ("Leaf", "Color", "LeafD", "Nt", "Unt")
    for n in range(1, 6 if deep else 4):
        for ts in itertools.permutations(names, n):
            out.append(("types " + " ".join(ts), "describe_api! { paths: { (\"p\"): { GET: { %s } } } }" % ", ".join("%d: %s" % (200 + i, t) for i, t in enumerate(ts)),
                        [("components/schemas", sorted(set(ts) | ({"Leaf"} if "Unt" in ts else set())))]))
    props = ("zz", "b", "Aa", "m_1", "a")
    for n in range(1, 6 if deep else 5):
        for ps in itertools.permutations(props[:5 if deep else 4], n):
            for req in itertools.product((False, True), repeat=n):
                inner = " ".join("%s%s: (string => { variants: [%s] })" % (p, "[required]" if r else "", ", ".join(m.q(x) for x in ps)) for p, r in zip(ps, req))
                want = [p for p, r in zip(ps, req) if r]
                out.append(("object " + inner[:60], "{ let mut doc = Opg::default(); doc.components.add_model(\"X\", describe_type!(object => { properties: { %s } })); doc }" % inner,
                            [("components/schemas/X/properties", sorted(ps))] + ([("components/schemas/X/required", want)] if want else []) +
                            [("components/schemas/X/properties/%s/enum" % p, list(ps)) for p in ps]))
    return out


def at(doc, path):
    x = doc
    for k in path.split("/") if "//" not in path else split(path):
        if not isinstance(x, dict) or k not in x:
            return None
        x = x[k]
    return x


def split(path):
    out = []
    parts = path.split("/")
    i = 0
    while i < len(parts):
        if parts[i] == "":
            out.append("/" + parts[i + 1])
            i += 2
        else:
            out.append(parts[i])
            i += 1
    return out


def keys(x):
    """The names a list or a map lists, in order."""
    if isinstance(x, dict):
        return list(x)
    out = []
    for y in x:
        if isinstance(y, str):
            out.append(y)
        elif "name" in y:
            out.append(y["name"])
        elif "url" in y:
            out.append(y["url"])
        else:
            out.append(list(y))
    return out


def unsorted(x, path="", named=False):
    """Places of maps of properties which are not in the order of names."""
    if isinstance(x, dict):
        if named and list(x) != sorted(x):
            return [path]
        return [p for k, v in x.items() for p in unsorted(v, path + "/" + k, not named and k in ("properties", "schemas"))]
    if isinstance(x, list):
        return [p for i, v in enumerate(x) for p in unsorted(v, "%s[%d]" % (path, i))]
    return []


def check(tier, t0):
    deep = tier == "thorough"
    sp = space(tier)
    docs = []
    for label, expr, want in documents(deep):
        docs.append(core.Case("document " + label, "", "vsupport::doc_texts(o, || %s);" % expr, meta={"want": want}))
    cases = sp.cases + docs
    results, violations = core.build_and_run("C24", cases, prelude=g.PRELUDE, deps=("serde_repr",))
    outcomes = set()
    if results:
        again = rerun(len(cases))
        for c in cases:
            r = results.get(c.id)
            if r is None or "texts" not in r:
                continue
            outcomes.add("\n".join(r["texts"]))
            if not r["stable"]:
                violations.append(core.Violation(c.name + " again", "%s: described again, the document differs" % c.name, {"observed": r}, c))
                continue
            if again.get(c.id) != r:
                violations.append(core.Violation(c.name + " in another process", "%s: another process writes something else" % c.name,
                                                 {"observed": r, "second": again.get(c.id)}, c))
                continue
            parsed = [json.loads(t) for t in r["texts"]]
            bad = [p for x in parsed for p in unsorted(x)]
            if bad:
                violations.append(core.Violation(c.name + " order of names", "%s: the names at %s are not in their order" % (c.name, bad[0]), {"observed": r}, c))
                continue
            if "want" in c.meta:
                for path, want in c.meta["want"]:
                    got = at(parsed[0], path)
                    got = got if got is None else keys(got)
                    if got != want:
                        violations.append(core.Violation(c.name, "%s: %s lists %s, declared %s" % (c.name, path, got, want), {"observed": r}, c))
                        break
                continue
            exp = m.expected(c.expect)
            ds = []
            for i, part in ((0, "ref"), (2, "schema")):
                ds += order(exp[part], parsed[i], part)
            for n, s in exp["components"].items():
                ds += order(s, parsed[1].get("schemas", {}).get(n), "components/" + n)
            if ds:
                violations.append(core.Violation(c.name, "%s: %s" % (c.name, ds[0]), {"differences": ds[:10], "observed": r}, c))
    cov = {"states": len(cases), "transitions": sp.transitions + len(docs), "traces_validated_against_impl": len(results),
           "distinct_outcomes": len(outcomes), "exhaustive": True,
           "bounds": {"orders": "all of up to 4 (5) names", "sizes": "up to 100 (256)", "repetitions": "3 in one process, 2 processes"},
           "samples": g.samples(sp.cases, results)}
    return core.finish("C24", tier, t0, cov, violations,
                       ["which schemas the lists hold is decided by other properties; this one decides their order and that it never varies"])


def order(exp, act, path):
    """Differences of order only: the same elements, listed in another order."""
    if isinstance(exp, dict) and isinstance(act, dict):
        return [d for k in exp if k in act for d in order(exp[k], act[k], path + "/" + k)]
    if isinstance(exp, list) and isinstance(act, list):
        e, a = [g.js_full(m.canon(x)) for x in exp], [g.js_full(m.canon(x)) for x in act]
        if e != a and sorted(e) == sorted(a):
            return ["%s: in the order %s, declared %s" % (path, g.js(act), g.js(exp))]
        if len(exp) == len(act):
            return [d for i, (x, y) in enumerate(zip(exp, act)) for d in order(x, y, "%s[%d]" % (path, i))]
    return []


def rerun(n):
    """A second process for every program."""
    out = {}
    d = os.path.join(core.WORK, "c24", "bin")
    procs = [subprocess.Popen([os.path.join(d, f)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=core.ENV) for f in sorted(os.listdir(d))]
    for p in procs:
        try:
            core.parse_lines(p.communicate(timeout=240)[0], out)
        except subprocess.TimeoutExpired:
            p.kill()
    return out
