"""Every documented name is the name serde writes."""
import itertools
import json

import core
import derive as g
import model as m
from model import Decl, Field, U8, Variant

FORMS = ("eq", "ser", "both", "twice", "de")
RAW = ["r#type", "r#fn", "r#async", "r#a", "r#a_b", "r#Ab", "r#True_"]
RESERVED = {"as", "do", "fn", "if", "in", "_"}


def identifiers(maxlen, first, rest):
    for n in range(1, maxlen + 1):
        for f in first:
            for tail in itertools.product(rest, repeat=n - 1):
                s = f + "".join(tail)
                if s not in RESERVED and not all(c == "_" for c in s):
                    yield s


def usable(rule, ident, variant):
    """serde itself slices the first byte off in camelCase, so it rejects these."""
    if rule != "camelCase":
        return True
    s = m.unraw(ident)
    first = s[0] if variant else s.lstrip("_")[0]
    return first.isascii()


def partition(idents, name, size):
    """Blocks of identifiers whose serialized names are pairwise different."""
    blocks = []
    for i in idents:
        n = name(i)
        for b in blocks:
            if len(b) < size and n not in b:
                b[n] = i
                break
        else:
            blocks.append({n: i})
    return [list(b.values()) for b in blocks]


def big_struct(idents, rule):
    attr = "#[serde(rename_all = %s)]\n" % m.q(rule) if rule else ""
    items = "#[derive(OpgModel, serde::Serialize)]\n%spub struct Subj {\n%s\n}" % (
        attr, "\n".join('#[opg("%d")] pub %s: u32,' % (i, n) for i, n in enumerate(idents)))
    body = "vsupport::observe::<Subj>(o);\nvsupport::value(o, &Subj { %s });" % (
        ", ".join("%s: %d" % (n, i) for i, n in enumerate(idents)))
    return items, body


def big_enum(idents, rule, mode):
    attr = "#[serde(rename_all = %s)]\n" % m.q(rule) if rule else ""
    if mode == "internal":
        attr += '#[serde(tag = "t")]\n'
    elif mode == "adjacent":
        attr += '#[serde(tag = "t", content = "c")]\n'
    items = "#[derive(OpgModel, serde::Serialize)]\n%spub enum Subj {\n%s\n}" % (
        attr, "\n".join('#[opg("%d")] %s,' % (i, n) for i, n in enumerate(idents)))
    if mode == "mixed":
        items = items[:-1] + "#[serde(rename = \"##\")] Zz9(u8)\n}"
    body = "vsupport::observe::<Subj>(o);\n" + "\n".join(
        "vsupport::value(o, &Subj::%s);" % n for n in idents)
    return items, body


def fields_of(r):
    return {k: int(v.get("description", "-1")) for k, v in r["schema"].get("properties", {}).items()}


def judge(c, r):
    """Documented map from names to members against serde's."""
    how = c.meta["how"]
    vals = [v["ok"] for v in r["values"]]
    s = r["schema"]
    if how == "struct":
        return fields_of(r), vals[0], sorted(s.get("required", [])), sorted(vals[0])
    if how == "string":
        return sorted(s["enum"]), sorted(vals), s.get("example"), vals[0]
    if how == "internal":
        doc = {}
        for a in s["oneOf"]:
            for n in a["properties"]["t"]["enum"]:
                doc[n] = int(a.get("description", "-1"))
        return doc, {v["t"]: i for i, v in enumerate(vals)}, None, None
    if how == "adjacent":
        return sorted(s["properties"]["t"]["enum"]), sorted(v["t"] for v in vals), None, None
    doc = {}
    for a in s["additionalProperties"]["oneOf"]:
        for n in a.get("enum", ()):
            doc[n] = int(a.get("description", "-1"))
    return doc, {v: i for i, v in enumerate(vals)}, None, None


def ident_cases(deep):
    cases = []
    edges = 0
    fmax, vmax = (5, 5) if deep else (4, 4)
    fields = sorted(set(list(identifiers(fmax, "aB_é", "aB_1é")) + list(identifiers(3, "aB_éÉ", "aB_1éÉ")))) + RAW \
        + ["very_tasty", "a_b_c", "_private", "trailing_", "two__under", "camelCased", "HTTPServer", "x1_y2", "snake_É"]
    variants = sorted(set(list(identifiers(vmax, "AbÉ_", "Ab_1É")) + list(identifiers(3, "AbÉé_", "Ab_1Éé")))) + RAW \
        + ["VeryTasty", "HTTPServer", "A1B2", "snake_case", "Trailing_", "ABC", "Z42"]
    for rule in [None] + m.RULES:
        usef = [i for i in fields if usable(rule, i, False)]
        for b in partition(usef, lambda i: m.apply_rule_field(rule, m.unraw(i)), 60):
            items, body = big_struct(b, rule)
            cases.append(core.Case("fields %s %s..%s" % (rule, b[0], b[-1]), items, body,
                                   meta={"how": "struct", "n": len(b)}))
            edges += len(b)
        usev = [i for i in variants if usable(rule, i, True)]
        for mode in ("string", "internal", "adjacent", "mixed"):
            use = usev if mode in ("string", "internal") or deep else usev[:80] + usev[-14:]
            for b in partition(use, lambda i: m.apply_rule_variant(rule, m.unraw(i)), 60):
                items, body = big_enum(b, rule, mode)
                cases.append(core.Case("variants/%s %s %s..%s" % (mode, rule, b[0], b[-1]), items, body,
                                       meta={"how": mode, "n": len(b)}))
                edges += len(b)
    return cases, edges


def words():
    """Explicit names: everything up to two characters over an odd alphabet, words that mean something elsewhere, long ones."""
    alphabet = "aA0_-./#~%${}<>:, \"'\\\n\téÉ\U0001F980"
    out = [""] + list(alphabet) + [a + b for a in alphabet for b in alphabet]
    out += ["null", "true", "false", "None", "Some", "Self", "self", "crate", "type", "r#type", "$ref", "nullable", "description", "required", "properties", "items", "format",
            "example", "enum", "oneOf", "string", "object", "{0}", "{:?}", "%s", " a ", "a  ", "\u200b", "\ufeffa", "\r\n", "\0", "A::B", "Vec<A>", "a b c", "camelCase", "snake_case",
            "kebab-case", "SCREAMING", "x" * 40, "y" * 300, "ſ", "ß", "İ", "ñ", "n\u0303", "1e5", "-1", "0", "//", "/*", "*/", "\\u0041", "\\n"]
    return list(dict.fromkeys(out))


def word_cases(deep):
    cases = []
    edges = 0
    ws = words()
    for i in range(0, len(ws), 40):
        b = ws[i:i + 40]
        for rule in [None, "camelCase", "SCREAMING-KEBAB-CASE"] if not deep else [None] + m.RULES:
            attr = "#[serde(rename_all = %s)]\n" % m.q(rule) if rule else ""
            for form in FORMS[:4] if deep or rule is None else FORMS[:1]:
                items = "#[derive(OpgModel, serde::Serialize)]\n%spub struct Subj {\n%s\n}" % (
                    attr, "\n".join('#[opg("%d")] #[serde(%s)] pub ff_%d: u32,' % (k, m._ren(w, form), k) for k, w in enumerate(b)))
                body = "vsupport::observe::<Subj>(o);\nvsupport::value(o, &Subj { %s });" % ", ".join("ff_%d: %d" % (k, k) for k in range(len(b)))
                cases.append(core.Case("fields called %s %s %r.." % (rule, form, b[0]), items, body, meta={"how": "struct", "n": len(b)}))
                edges += len(b)
                for mode in ("string", "internal", "adjacent", "mixed"):
                    names = ["Vv%d" % k for k in range(len(b))]
                    items, body = big_enum(names, rule, mode)
                    for k, w in enumerate(b):
                        items = items.replace('#[opg("%d")] Vv%d,' % (k, k), '#[opg("%d")] #[serde(%s)] Vv%d,' % (k, m._ren(w, form), k))
                    cases.append(core.Case("variants called %s %s %s %r.." % (mode, rule, form, b[0]), items, body, meta={"how": mode, "n": len(b)}))
                    edges += len(b)
    return cases, edges


STRINGS = ["x", "Type", "with space", 'qu"ote', "back\\slash", "a/b", "é€", "$ref", "0", "type", "{x}", "a.b-c_d", "", " ", " a", "a ", "\n", "\u200b", "'", "{}", "%", "x" * 70, "Foo", "foo", "FOO", "null", "t", "c"]


def rename_space(deep):
    sp = g.Space()
    rules = [(None, "eq")] + [(r, f) for r in (m.RULES if deep else ("camelCase", "SCREAMING-KEBAB-CASE")) for f in FORMS]
    renames = [(None, "eq")] + [("reNamed_X", f) for f in FORMS]
    for (rr, rf), (n1, f1) in itertools.product(rules, renames):
        d = Decl(kind="struct", rename_all=rr, rename_all_form=rf,
                 fields=[Field(name="fld_one", rename=n1, rename_form=f1), Field(name="fld_two")])
        sp.add_decl("struct rename_all=%s/%s rename=%s/%s" % (rr, rf, n1, f1), d, 2)
        for (cn, cf) in renames:
            d = Decl(kind="struct", rename_all=rr, rename_all_form=rf, rename=cn, rename_form=cf, struct_tag="tg",
                     fields=[Field(name="fld_one", rename=n1, rename_form=f1)])
            sp.add_decl("tagged rename_all=%s/%s rename=%s/%s container=%s/%s" % (rr, rf, n1, f1, cn, cf), d, 3)
    for mode in ("external", "internal", "adjacent", "untagged"):
        for (rr, rf), (vn, vf), (vr, vrf), (ar, arf), (fn, ff) in itertools.product(
                rules, renames, rules if deep else [rules[0]] + rules[1:6],
                [(None, "eq")] + [("UPPERCASE", f) for f in ("eq", "ser", "both", "de")], renames):
            # at most three of the five deviate (two in the quick run)
            n = sum(x is not None for x in (rr, vn, vr, ar, fn))
            if n > (3 if deep else 2):
                continue
            if mode == "untagged" and (rr or vn):
                continue
            d = Decl(kind="enum", tagging=mode, rename_all=rr, rename_all_form=rf,
                     rename_all_fields=ar, rename_all_fields_form=arf,
                     variants=[Variant(name="VarOne", style="struct", rename=vn, rename_form=vf,
                                       rename_all=vr, rename_all_form=vrf,
                                       fields=[Field(name="fld_one", rename=fn, rename_form=ff), Field(name="fld_two")]),
                               Variant(name="VarTwo", style="struct", fields=[Field(name="fld_three")])])
            sp.add_decl("%s all=%s/%s v=%s/%s vall=%s/%s fields=%s/%s f=%s/%s"
                        % (mode, rr, rf, vn, vf, vr, vrf, ar, arf, fn, ff), d, n)
        for (rr, rf), (vn, vf) in itertools.product(rules, renames):
            if mode == "untagged":
                continue
            d = Decl(kind="enum", tagging=mode, rename_all=rr, rename_all_form=rf,
                     variants=[Variant(name="VarOne", rename=vn, rename_form=vf), Variant(name="VarTwo")])
            sp.add_decl("%s units all=%s/%s v=%s/%s" % (mode, rr, rf, vn, vf), d, 2)
            d = Decl(kind="enum", tagging=mode, rename_all=rr, rename_all_form=rf,
                     variants=[Variant(name="VarOne", rename=vn, rename_form=vf), Variant(name="VarTwo", style="newtype", fields=[Field(name="0", ty=g.PAL["leaf"])])])
            sp.add_decl("%s mixed all=%s/%s v=%s/%s" % (mode, rr, rf, vn, vf), d, 2)
    for s in STRINGS:
        for form in ("eq", "ser", "both"):
            sp.add_decl("field=%r/%s" % (s, form), Decl(kind="struct", rename_all="camelCase",
                        fields=[Field(name="a_b", rename=s, rename_form=form)]))
            for mode in ("external", "internal", "adjacent"):
                sp.add_decl("%s variant=%r/%s" % (mode, s, form), Decl(
                    kind="enum", tagging=mode, rename_all="snake_case", variants=[
                        Variant(name="A", rename=s, rename_form=form), Variant(name="Bb")]))
        sp.add_decl("struct tag=%r" % s, Decl(kind="struct", struct_tag=s, rename_all="camelCase", fields=[Field(name="a_b")]))
        sp.add_decl("struct tag of %r" % s, Decl(kind="struct", struct_tag="tg", rename=s, rename_all="UPPERCASE", fields=[Field(name="a_b")]))
        sp.add_decl("tag=%r" % s, Decl(kind="enum", tagging="internal", tag=s, variants=[
            Variant(name="A"), Variant(name="B", style="struct", fields=[Field(name="n")])]))
        if s != "c":
            sp.add_decl("tag/content=%r" % s, Decl(kind="enum", tagging="adjacent", tag=s, content=s + "_", variants=[
                Variant(name="A"), Variant(name="B", style="struct", fields=[Field(name="n")])]))
    # renames onto names that a rule, or the member itself or its neighbour, would give
    for rule in [None] + m.RULES:
        images = lambda i, ap: [i] + sorted({ap(r, i) for r in m.RULES} - {i})
        for form in ("eq", "ser", "both"):
            for own, other in (("fld_one", "fld_two"), ("fld_two", "x_y")):
                for t in images("fld_one", m.apply_rule_field):
                    fs = [Field(name="fld_one", rename=t if own == "fld_one" else None, rename_form=form),
                          Field(name="fld_two", rename=t if own == "fld_two" else None, rename_form=form)]
                    if own == "fld_two":
                        fs[0].name = "x_y"
                    if rule is None or m.apply_rule_field(rule, other) != t:
                        sp.add_decl("rule %s field %s renamed to %r/%s" % (rule, own, t, form), Decl(kind="struct", rename_all=rule, fields=fs), 2)
                        sp.add_decl("rule %s variant field %s renamed to %r/%s" % (rule, own, t, form), Decl(kind="enum", tagging="adjacent", variants=[
                            Variant(name="VarOne", style="struct", rename_all=rule, fields=fs)]), 2)
            sp.add_decl("rule %s fields swapped/%s" % (rule, form), Decl(kind="struct", rename_all=rule, fields=[
                Field(name="fld_one", rename="fld_two", rename_form=form), Field(name="fld_two", rename="fld_one", rename_form=form)]), 2)
            for mode in ("external", "internal", "adjacent"):
                for t in images("VarOne", m.apply_rule_variant):
                    for style in ("unit", "struct"):
                        sp.add_decl("rule %s %s %s variant renamed to %r/%s" % (rule, mode, style, t, form), Decl(kind="enum", tagging=mode, rename_all=rule, variants=[
                            Variant(name="VarOne", style=style, rename=t, rename_form=form, fields=[Field(name="fld_one")] if style == "struct" else []), Variant(name="Other", style=style, fields=[Field(name="n")] if style == "struct" else [])]), 2)
                sp.add_decl("rule %s %s variants swapped/%s" % (rule, mode, form), Decl(kind="enum", tagging=mode, rename_all=rule, variants=[
                    Variant(name="VarOne", rename="VarTwo", rename_form=form), Variant(name="VarTwo", rename="VarOne", rename_form=form)]), 2)
    # a rename or rule for another kind of member changes nothing here
    for rule in m.RULES:
        sp.add_decl("rename_all_fields=%s" % rule, Decl(kind="enum", tagging="internal", rename_all_fields=rule, variants=[
            Variant(name="VarOne", style="struct", fields=[Field(name="fld_one")])]))
        sp.add_decl("variant rename_all=%s" % rule, Decl(kind="enum", tagging="adjacent", variants=[
            Variant(name="VarOne", style="struct", rename_all=rule, fields=[Field(name="fld_one")]),
            Variant(name="VarTwo", style="struct", fields=[Field(name="fld_two")])]))
        sp.add_decl("rename_all=%s + rename_all_fields" % rule, Decl(kind="enum", tagging="adjacent", rename_all=rule, rename_all_fields="kebab-case", variants=[
            Variant(name="VarOne", style="struct", fields=[Field(name="fld_one")])]))
    return sp


def check(tier, t0):
    deep = tier == "thorough"
    sp = rename_space(deep)
    cases, edges = ident_cases(deep)
    wcases, wedges = word_cases(deep)
    cases += wcases
    edges += wedges
    allc = sp.cases + cases
    results, violations = core.build_and_run("C04", allc, prelude=g.PRELUDE, deps=("serde_repr",))
    outcomes = names = 0
    if results:
        vs, outcomes, _ = g.compare(sp.cases, results, None, ("properties", "required", "enum"),
                                    ("schema", "components"), accept=True)
        violations += vs
        for c in cases:
            r = results.get(c.id)
            if not r or "schema" not in r:
                continue
            names += c.meta["n"]
            try:
                doc, ser, a, b = judge(c, r)
            except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                violations.append(core.Violation(c.name, "%s: unexpected shape %r" % (c.name, e), r, c))
                continue
            if doc != ser or a != b:
                if isinstance(doc, dict):
                    d = sorted(set(doc.items()) ^ set(ser.items()))[:6]
                elif isinstance(doc, list):
                    d = sorted(set(doc) ^ set(ser))[:6]
                else:
                    d = (a, b)
                violations.append(core.Violation(c.name, "%s: documented and serialized names differ: %s" % (c.name, d),
                                                 {"documented": doc, "serialized": ser, "other": [a, b]}, c))
    cov = {"states": len(sp.cases) + edges, "transitions": sp.transitions + edges,
           "traces_validated_against_impl": len(results), "names_compared_with_serde": names,
           "distinct_outcomes": outcomes,
           "bounds": {"identifier length": 5 if deep else 4, "rules": 9, "rename forms": FORMS,
                      "rename placements combined": 3 if deep else 2},
           "exhaustive": True, "samples": g.samples(sp.cases, results)}
    return core.finish("C04", tier, t0, cov, violations,
                       ["serde's output is the oracle for every name",
                        "identifiers for which serde itself fails (camelCase with a leading non-ASCII letter) are excluded"])
