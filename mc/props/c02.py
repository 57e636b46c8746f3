"""Enums: every tagging mode describes the JSON that serde writes."""
import itertools

import core
import derive as g
import model as m
from derive import PAL, PALETTE
from model import D, Decl, Field, STR, U8, V, Variant
from props.c07 import KINDS, container

MODES = ("external", "internal", "adjacent", "untagged")
NAMES = ("Aa", "BbCc", "D")
MIXED = ("unit", "nt:u8", "nt:leaf", "tuple", "struct", "empty", "nt:opt_leaf", "nt:vec_leaf",
         "nt:map_leaf", "nt:inl", "tuple_leaf", "nt:unt", "unit_skip")
SMALL = ("unit", "nt:leaf", "tuple", "struct", "nt:str")


def variant(i, style):
    n = NAMES[i]
    if style == "unit":
        return Variant(name=n)
    if style == "unit_skip":
        return Variant(name=n, skip="skip")
    if style.startswith("nt:"):
        return Variant(name=n, style="newtype", fields=[Field(name="0", ty=PAL[style[3:]])])
    if style == "tuple":
        return Variant(name=n, style="tuple", fields=[Field(name="0", ty=U8), Field(name="1", ty=STR)])
    if style == "tuple_leaf":
        return Variant(name=n, style="tuple", fields=[Field(name="0", ty=PAL["leaf"]), Field(name="1", ty=PAL["opt_leaf"])])
    if style == "tuple0":
        return Variant(name=n, style="tuple")
    if style == "struct":
        return Variant(name=n, style="struct", fields=[Field(name="f_a", ty=U8), Field(name="b", ty=PAL["opt_leaf"])])
    if style == "empty":
        return Variant(name=n, style="struct")
    raise ValueError(style)


def enum(mode, styles, **kw):
    return Decl(kind="enum", tagging=mode, variants=[variant(i, s) for i, s in enumerate(styles)], **kw)


def plain(sites):
    return [s for s in sites if not s[0].endswith(("desc", "fmt", "ex"))]


def attr_sites(base, annotations=False):
    sites = g.container_sites("enum")
    sites.append(("raf", [("S.rename_all_fields", g.setter(lambda d: d, "rename_all_fields", "UPPERCASE"))]))
    for i, v in enumerate(base.variants):
        sites += g.variant_sites(i, v.style)
        for j, f in enumerate(v.fields):
            expl = not (base.tagging == "internal" and v.style == "newtype")
            sites += g.field_sites(lambda d, i=i, j=j: d.variants[i].fields[j], "V%dF%d" % (i, j),
                                   named=v.style == "struct", explicit=expl)
    return sites if annotations else plain(sites)


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def repr_space(sp, deep):
    discs = ("0", "1", "7", "-1", "100") if deep else ("0", "7", "-1")
    for n in (1, 2, 3):
        for ds in [(None,) * n] + list(itertools.permutations(discs, n)):
            for r in ("i8", "i64"):
                d = Decl(kind="enum", tagging="repr", repr=r,
                         variants=[Variant(name=NAMES[i], disc=x) for i, x in enumerate(ds)])
                sp.add_decl("repr(%s)[%s]" % (r, ",".join(str(x) for x in ds)), d, n)
    base = Decl(kind="enum", tagging="repr", variants=[Variant(name="Aa", disc="1"), Variant(name="BbCc", disc="5")])
    sites = [s for s in g.container_sites("enum") if s[0] in ("inl", "null", "desc")]
    for i in range(2):
        sites += [s for s in g.variant_sites(i, "unit") if s[0].endswith("desc")]
    for lbl, d, k in g.deviations(base, sites, 2):
        sp.add_decl("repr+" + lbl, d, k)
    for r in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
        d = Decl(kind="enum", tagging="repr", repr=r, variants=[Variant(name="A", disc="1"), Variant(name="B", disc="2")])
        sp.add_decl("repr(%s)" % r, d, 1)
        lo, hi = (0, 2 ** BITS[r] - 1) if r[0] == "u" else (-2 ** (BITS[r] - 1), 2 ** (BITS[r] - 1) - 1)
        lo, hi = max(lo, -2 ** 63), min(hi, 2 ** 64 - 1)  # what serde_json can write
        for x, y in ((lo, hi), (hi, lo), (lo + 1, hi - 1), (hi // 2, hi // 2 + 1)):
            d = Decl(kind="enum", tagging="repr", repr=r, variants=[Variant(name="A", disc=str(x)), Variant(name="B", disc=str(y))])
            sp.add_decl("repr(%s)[%s,%s]" % (r, x, y), d, 2)
    for x, y in (("1 << 3", "1 << 4"), ("0x10", "0b1"), ("u8::MAX", "u8::MIN"), ("b'a'", "b'z'"), ("1 + 1", "(3)"), ("1_0", "2u8")):
        d = Decl(kind="enum", tagging="repr", variants=[Variant(name="A", disc=x), Variant(name="B", disc=y)])
        sp.add_decl("repr[%s,%s]" % (x, y), d, 2)
    # representations which say nothing about the JSON
    for a in ("#[repr(C)]", "#[repr(C, align(8))]", "#[repr(align(4))]"):
        sp.add_decl("foreign " + a, enum("external", ("unit", "unit"), foreign=(a,)))


def space(tier):
    sp = g.Space()
    deep = tier == "thorough"
    for mode in MODES:
        for n, _ in PALETTE:
            sp.add_decl("%s[nt:%s]" % (mode, n), enum(mode, ("nt:" + n,)))
            sp.add_decl("%s[nt:%s,unit]" % (mode, n), enum(mode, ("nt:" + n, "unit")), 2)
        for s in MIXED[:-1] + ("tuple0",):
            sp.add_decl("%s[%s]" % (mode, s), enum(mode, (s,)))
        for ss in itertools.product(MIXED, repeat=2):
            sp.add_decl("%s[%s]" % (mode, ",".join(ss)), enum(mode, ss), 2)
        for ss in itertools.product(MIXED if deep else SMALL, repeat=3):
            sp.add_decl("%s[%s]" % (mode, ",".join(ss)), enum(mode, ss), 3)
        for tag, content in (("type", "data"), ("t_g", "Content")):
            sp.add_decl("%s tag=%s" % (mode, tag), enum(mode, ("unit", "nt:leaf", "struct"), tag=tag, content=content))
        # attributes
        styles = ("unit", "nt:leaf", "struct")
        base = enum(mode, styles)
        sites = attr_sites(base)
        for lbl, d, k in g.deviations(base, sites, 1):
            sp.add_decl("%s[%s]+%s" % (mode, ",".join(styles), lbl), d, k)
        if not deep:
            sites = [s for s in sites if s[0] not in ("style", "foreign", "rename")
                     and not s[0].endswith(("default", "opt"))]
        for lbl, d, k in g.deviations(base, sites, 2):
            sp.add_decl("%s[%s]+%s" % (mode, ",".join(styles), lbl), d, k)
        for styles in (("tuple", "nt:u8"), ("unit", "unit")):
            base = enum(mode, styles)
            for lbl, d, k in g.deviations(base, attr_sites(base), 2 if deep else 1):
                sp.add_decl("%s[%s]+%s" % (mode, ",".join(styles), lbl), d, k)
        # sizes, and one unusual variant at every position
        for st in (("unit", "newtype", "struct", "tuple"), ("unit",), ("newtype",), ("struct",)):
            if mode == "untagged" and st == ("unit",):
                continue
            for n in list(range(4, 21)) + ([33, 64, 65] if deep else [33]):
                sp.add_decl("%s[%s] of %d" % (mode, ",".join(st), n), g.wide_enum(mode, n, st), n)
        for n in list(range(3, 17)) + ([33] if deep else []):
            for shape in ("struct", "tuple"):
                if (mode, shape) != ("internal", "tuple"):
                    sp.add_decl("%s %s variant of %d" % (mode, shape, n), g.wide("%s.%s" % (mode, shape), n)[0], n)
    special = [("skip", {"skip": "skip"}), ("rename", {"rename": "zz"}), ("unit", {"style": "unit", "fields": []}),
               ("empty", {"style": "struct", "fields": []}), ("inline", {"inline": True})]
    for lbl, d, _ in g.variant_positions(range(2, 9 if deep else 6), special):
        sp.add_decl(lbl, d, 2)
    for n in list(range(4, 33)) + [64, 65, 128, 200, 256]:
        sp.add_decl("repr of %d" % n, Decl(kind="enum", tagging="repr", variants=[Variant(name="V%d" % i) for i in range(n)]), n)
    repr_space(sp, deep)
    # recorded findings: attributes of serde which the generator does not apply
    for mode in ("external", "internal", "adjacent"):
        d = Decl(kind="enum", tagging=mode, variants=[Variant(name="Aa", style="struct", fields=[Field(name="x", ty=U8)]),
                                                      Variant(name="Bb", style="newtype", fields=[Field(name="0", ty=V(U8))], extra_serde=("untagged",))])
        sp.add_decl("%s with an untagged variant" % mode, d, 2, meta={"known": "variant-untagged-ignored"})
        d = Decl(kind="enum", tagging=mode, variants=[Variant(name="Aa", style="struct", fields=[Field(name="x", ty=U8), Field(name="y", ty=PAL["leaf"], flatten=True)])])
        sp.add_decl("%s with a flattened field" % mode, d, 2, meta={"known": "variant-flatten-ignored"})
    # the same types spelled differently, and every constructor around the content
    for lbl, d, _, kw in g.spelled(container, KINDS[4:]):
        sp.add_decl(lbl, d, 2, **kw)
    for n, c in g.contexts(deep):
        for kind in KINDS[4:]:
            for ln in ("leaf", "u8"):
                sp.add_decl("%s<%s %s>" % (kind, n, ln), container(kind, c(PAL[ln])), 2, check_values=False)
    return sp


def repr_numbers(cases, results):
    """The number a numeric variant documents is the number serde_repr writes."""
    out = []
    for c in cases:
        d = c.expect[1]
        r = results.get(c.id, {})
        if d.kind != "enum" or d.tagging != "repr" or "schema" not in r or d.nullable:
            continue
        got = sorted(a.get("example", "") for a in r["schema"].get("oneOf", []))
        exp = sorted(str(v["ok"]) for v in r.get("values", []) if "ok" in v)
        if got != exp:
            out.append(core.Violation(c.name + " numbers", "%s: documented numbers %s, serialized %s"
                                      % (c.name, got, exp), {"observed": r}, c))
    return out


def classify(c, value):
    """Recorded finding: the content of an internally tagged newtype variant is itself
    written as a bare name or as nothing, which serde then writes next to the tag."""
    if c.meta.get("known"):
        return c.meta["known"]
    d = c.expect[1]
    if d.kind != "enum" or d.tagging != "internal" or not isinstance(value, dict):
        return None
    for v in d.variants:
        if v.effective() == "newtype" and value.get(d.tag) == m.variant_name(v, d):
            t = v.fields[0].ty
            while t[0] in ("w", "opt"):
                t = t[2] if t[0] == "w" else t[1]
            if t == m.UNIT or (t[0] == "d" and t[1].kind == "enum" and t[1].tagging == "external"):
                return "internal-newtype-unit-content"
    return None


def check(tier, t0):
    sp = space(tier)
    return g.run_space(
        "C02", tier, t0, sp,
        {"variants": 3, "variant styles": len(MIXED), "newtype contents": len(PALETTE),
         "attribute deviations": 2}, classify=classify, drop=m.ANNOT + ("format",), extra=repr_numbers,
        assumptions=["JSON is what serde_json::to_value writes; values serde refuses to write are not required to be accepted"])
