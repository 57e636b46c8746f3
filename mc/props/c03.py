"""Properties and required lists against the keys serde really writes."""
import copy
import itertools

import core
import derive as g
import model as m
from derive import PAL
from model import Decl, Field, Variant

MODES = ("struct", "external", "internal", "adjacent", "untagged")
# presence-affecting things one can write on a field: (label, attributes)
FATTR = [
    ("plain", {}),
    ("skip", {"skip": "skip"}),
    ("skip_ser", {"skip": "skip_serializing"}),
    ("skip_de", {"skip": "skip_deserializing"}),
    ("if", {"skip_if": "toggle"}),
    ("default", {"extra_serde": ("default",)}),
    ("if+default", {"skip_if": "toggle", "extra_serde": ("default",)}),
    ("optional", {"optional": True}),
    ("if+optional", {"skip_if": "toggle", "optional": True}),
    ("nullable", {"nullable": True}),
    ("optional+nullable", {"optional": True, "nullable": True}),
    ("rename", {"rename": "@"}),
    ("rename_de", {"rename": "@", "rename_form": "de"}),
    ("alias", {"extra_serde": ('alias = "zz"',)}),
    ("inline", {"inline": True}),
    ("any", {"explicit": "any"}),
    ("string", {"explicit": "string"}),
    ("skip+optional", {"skip": "skip_serializing", "optional": True}),
    ("if+rename", {"skip_if": "toggle", "rename": "@"}),
    ("desc", {"desc": "text"}),
    ("skip_ser+de", {"extra_serde": ("skip_serializing", "skip_deserializing"), "skip": None}),
]
CONTAINER = [
    ("", {}),
    ("camel", {"rename_all": "camelCase"}),
    ("default", {"extra_serde": ("default",)}),
    ("deny", {"extra_serde": ("deny_unknown_fields",)}),
    ("nullable", {"nullable": True}),
    ("inline", {"inline": True}),
    ("split", {"attr_style": "split"}),
    ("reversed", {"attr_style": "reversed"}),
]
NAMES = ("first_one", "b", "c")
IDENTS = ("a", "r#type", "r#match", "_x", "x_", "a__b", "\u00e9t\u00e9", "a1", "B", "aB", "x_1_y", "required", "properties")
PREDICATES = ("skip_toggle", "crate::prelude::skip_toggle", "vsupport::skip_toggle", "::vsupport::skip_toggle", "self::skip_toggle", "skip_toggle::<_>", "vsupport::skip_toggle::<u8>")
TYS = ("u8", "opt_u8", "leaf", "opt_leaf", "unit", "vec_leaf", "map_u8")


def field(i, ty, attrs):
    kw = copy.deepcopy(attrs)
    if kw.get("rename"):
        kw["rename"] = "ren%d" % i
    return Field(name=NAMES[i], ty=PAL[ty], **kw)


def decl(mode, fields, **kw):
    if mode == "struct":
        return Decl(kind="struct", fields=fields, **kw)
    kw.pop("extra_serde", None)
    return Decl(kind="enum", tagging=mode, variants=[Variant(name="Va", style="struct", fields=fields)], **kw)


def really_skipped(f):
    return f.skipped() or "skip_serializing" in f.extra_serde


def space(tier):
    sp = g.Space()
    deep = tier == "thorough"
    for mode in MODES:
        for (cl, ca) in CONTAINER:
            if mode != "struct" and cl in ("default", "deny"):
                continue
            for ty in TYS:
                for la, a in FATTR:
                    add(sp, "%s.%s{%s:%s}" % (mode, cl, la, ty), mode, [field(0, ty, a)], ca, 1)
            rest = FATTR if (deep or cl == "") else FATTR[:9]
            for (l1, a1), (l2, a2) in itertools.product(rest, rest):
                add(sp, "%s.%s{%s,%s}" % (mode, cl, l1, l2), mode,
                    [field(0, "u8", a1), field(1, "opt_leaf", a2)], ca, 2)
        lim = FATTR if deep else [x for x in FATTR if x[0] in ("plain", "skip", "if", "optional", "default")]
        for combo in itertools.product(lim, repeat=3):
            add(sp, "%s{%s}" % (mode, ",".join(x[0] for x in combo)), mode,
                [field(i, t, a) for i, (t, (_, a)) in enumerate(zip(("u8", "opt_u8", "leaf"), combo))], {}, 3)
    # everything one can say about one field at once
    presence = [x for x in FATTR if x[0] in ("plain", "if", "optional", "if+optional", "default", "skip_ser")]
    for mode in MODES:
        for (pl, pa), ex, nul, inl, ann, ren in itertools.product(presence, (None, "any", "string", "integer", "number", "boolean"), (False, True), (False, True), range(3), (False, True)):
            a = dict(pa)
            if ex:
                a["explicit"] = ex
            if nul:
                a["nullable"] = True
            if inl:
                a["inline"] = True
            if ann:
                a["desc"] = "text"
            if ann == 2:
                a.update(format="ff", example="1")
            if ren:
                a["rename"] = "@"
            for ty in ("u8", "leaf", "opt_u8") if deep else ("u8",):
                add(sp, "%s{%s %s}" % (mode, ty, a), mode, [field(0, ty, a), field(1, "opt_leaf", {})], {}, 4)
    special = [x for x in FATTR if x[0] in ("skip", "if", "optional", "if+optional", "rename", "nullable", "if+default")]
    fill = ("u8", "opt_u8", "leaf", "opt_leaf", "vec_leaf")
    for lbl, d, f in g.positions(range(4, 13 if deep else 8), special, [s for s in g.SHAPES if s.endswith("struct")], fill):
        if f.rename:
            f.rename = "zz"
        if d.kind == "enum":
            d.variants = d.variants[:1]
        sp.add_decl(lbl, d, 2, check_values=True)
    for shape in [s for s in g.SHAPES if s.endswith("struct")]:
        for n in list(range(4, 25)) + ([40, 64, 65] if deep else [33]):
            for j, (ll, la) in enumerate((("", {}), ("if", {"skip_if": "toggle"}), ("optional", {"optional": True}))):
                d, fs = g.wide(shape, n, fill)
                for f in fs[:: j + 1] if j else []:
                    for k, v in la.items():
                        setattr(f, k, v)
                if d.kind == "enum":
                    d.variants = d.variants[:1]
                sp.add_decl("%s of %d %s" % (shape, n, ll), d, n, check_values=True)
    # the same types spelled differently
    for lbl, d, f, kw in g.spelled(lambda mode, t: decl(mode, [Field(name="first_one", ty=t), Field(name="b", ty=PAL["opt_u8"])]), MODES,
                                   ({}, {"optional": True}, {"skip_if": "toggle"}, {"skip": "skip_serializing"})):
        sp.add_decl(lbl, d, 2, check_values=True, **kw)
    # identifiers, rules and renames: required and documented names go together
    rules = (None,) + tuple(m.RULES)
    for mode in MODES:
        for name in IDENTS:
            for rule in rules:
                for ll, la in (("", {}), ("rename", {"rename": "z\u00e9 z"}), ("rename ser", {"rename": "r#type", "rename_form": "ser"}), ("rename de", {"rename": "zz", "rename_form": "de"})):
                    if ll and not deep and rule not in (None, "camelCase", "UPPERCASE"):
                        continue
                    if rule == "camelCase" and name.strip("_")[:1] > "z":
                        continue  # serde itself cuts the name inside a character
                    fs = [Field(name=name, ty=PAL["u8"], **la)]
                    fs += [Field(name=n, ty=PAL[t], **a) for n, t, a in (("other_one", "leaf", {"skip_if": "toggle"}), ("other_two", "u8", {"optional": True}), ("other_three", "opt_u8", {}))]
                    d = decl(mode, fs)
                    if rule and mode == "struct":
                        d.rename_all = rule
                    elif rule:
                        d.variants[0].rename_all = rule
                    sp.add_decl("%s %s %s %s" % (mode, name, rule, ll), d, 3, check_values=True)
    # spellings of the predicate
    for mode in MODES:
        for pred in PREDICATES:
            for extra in ((), ("default",), ('alias = "q"',)):
                d = decl(mode, [Field(name="a", ty=PAL["u8"], skip_if="toggle", pred=pred, extra_serde=extra), Field(name="b", ty=PAL["opt_u8"])])
                for st in ("joined", "split", "reversed"):
                    d = copy.deepcopy(d)
                    d.attr_style = st
                    sp.add_decl("%s predicate %s %s %s" % (mode, pred, extra, st), d, 3, check_values=True)
    for n in range(0, 3):
        for tagname in ("tg", "first_one_"):
            sp.add_decl("tagged struct %d %s" % (n, tagname),
                        Decl(kind="struct", struct_tag=tagname, fields=[field(i, "u8", {}) for i in range(n)]))
    return sp


def add(sp, label, mode, fields, ca, n):
    d = decl(mode, fields, **copy.deepcopy(ca))
    if d.kind == "struct" and "default" in d.extra_serde:
        return      # needs Default and only concerns deserialization
    sp.add_decl(label, d, n, check_values=True)


def locate(schema, mode, tag="t", content="c"):
    """The object schema of the only container in it, and the keys it adds itself."""
    def strip(s):
        # a nullable composite is a choice between itself and null
        if "oneOf" in s and len(s["oneOf"]) == 2 and s["oneOf"][1].get("format") == "null":
            return s["oneOf"][0]
        return s

    if mode == "struct":
        return schema, set()
    if mode == "external":
        return schema["additionalProperties"]["oneOf"][0], set()
    if mode == "adjacent":
        return schema["properties"][content]["oneOf"][0], set()
    return strip(schema)["oneOf"][0], ({tag} if mode == "internal" else set())


def payload(v, mode):
    if mode == "external":
        return list(v.values())[0]
    if mode == "adjacent":
        return v["c"]
    return v


def keys(cases, results):
    out = []
    for c in cases:
        r = results.get(c.id)
        if not r or "schema" not in r:
            continue
        d = c.expect[1]
        mode = "struct" if d.kind == "struct" else d.tagging
        fs = d.fields if d.kind == "struct" else d.variants[0].fields
        try:
            s, _ = locate(r["schema"], mode)
            docs = set(s.get("properties", {}))
            req = s.get("required", [])
        except (KeyError, IndexError, TypeError, AttributeError) as e:
            out.append(core.Violation(c.name, "%s: no object schema found (%r)" % (c.name, e), r, c))
            continue
        seen = [set(payload(v["ok"], mode)) for v in r["values"] if "ok" in v]
        union = set().union(*seen) if seen else set()
        always = set(seen[0]).intersection(*seen) if seen else set()
        marked = {m.field_name(f, m.rule_effective(d.rename_all, d.rename_all_form) if d.kind == "struct"
                               else m.variant_field_rule(d.variants[0], d)) for f in fs if f.optional}
        bad = []
        if docs != union:
            bad.append("documented keys %s, serialized keys %s" % (sorted(docs), sorted(union)))
        if len(req) != len(set(req)):
            bad.append("required lists a name twice: %s" % req)
        if not set(req) <= docs:
            bad.append("required names an undocumented property: %s" % sorted(set(req) - docs))
        if set(req) != always - marked:
            bad.append("required %s, always serialized and not optional %s" % (sorted(req), sorted(always - marked)))
        if bad:
            out.append(core.Violation(c.name, "%s: %s" % (c.name, bad[0]),
                                      {"problems": bad, "schema": r["schema"], "values": r["values"]}, c))
    return out


def check(tier, t0):
    sp = space(tier)
    # the pair of attributes means the same as `skip`
    for c in sp.cases:
        d = c.expect[1]
        for f in d.fields + [f for v in d.variants for f in v.fields]:
            if "skip_serializing" in f.extra_serde:
                f.skip, f.extra_serde = "skip_serializing", ()
    return g.run_space("C03", tier, t0, sp,
                       {"fields": 3, "presence attributes": len(FATTR), "containers": len(MODES),
                        "container attributes": len(CONTAINER)},
                       keep=("required", "type"), drop=("nullable",), accept=False, extra=keys,
                       parts=("schema", "components"),
                       assumptions=["the oracle is the union and intersection of the key sets serde_json writes",
                                    "the answer of skip_serializing_if is enumerated (true and false)"])
