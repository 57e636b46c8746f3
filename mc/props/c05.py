"""Members serde never serializes leave no trace."""
import copy
import itertools

import derive as g
import model as m
from derive import LEAFD, PAL
from model import D, Decl, Field, STR, U8, Variant

NOM = ("raw", "NoModel", {}, ["NoModel"])
CHOICES = (None, "skip", "skip_serializing", "skip_deserializing")
STYLES = ("unit", "newtype", "tuple", "struct")
VNAMES = ("Aa", "Bb", "Cc", "Dd")


OTHERS = [("if", {"skip_if": "toggle"}), ("default", {"extra_serde": ("default",)}), ("with", {"extra_serde": ('serialize_with = "crate::absent::absent"',)}),
          ("module", {"extra_serde": ('with = "crate::absent"',)}), ("flatten", {"extra_serde": ("flatten",)}),
          ("rename", {"rename": "zz"}), ("optional", {"optional": True}), ("nullable", {"nullable": True}), ("inline", {"inline": True}),
          ("desc", {"desc": "text"}), ("format", {"format": "ff"}), ("example", {"example": "ee"}), ("example_with", {"example_with": ("1 + 1", "2")}),
          ("string", {"explicit": "string"}), ("any", {"explicit": "any"}), ("doc", {"foreign": ("/// doc", "#[allow(dead_code)]")}),
          ("bound", {"extra_serde": ('bound = ""',)})]
VOTHERS = [("rename", {"rename": "zz"}), ("inline", {"inline": True}), ("desc", {"desc": "text"}), ("format", {"format": "ff"}), ("example", {"example": "ee"}),
           ("rename_all", {"rename_all": "camelCase"}), ("alias", {"extra_serde": ('alias = "q"',)}), ("other", {"extra_serde": ("skip_deserializing",)}),
           ("doc", {"foreign": ("/// doc",)})]


def out(choice):
    return choice in ("skip", "skip_serializing")


def fields(named, choices, hidden, tys=("leaf", "u8", "opt_leaf", "str")):
    """hidden: the type of members which are never serialized"""
    return [Field(name="f%d" % i if named else str(i), ty=hidden if out(c) else PAL[tys[i]], skip=c)
            for i, c in enumerate(choices)]


def variant(i, style, choice, hidden, inner=None):
    inner = inner or {"newtype": (None,), "tuple": (None, None), "struct": (None, None)}.get(style, ())
    fs = fields(style == "struct", inner, hidden)
    if out(choice):
        for f in fs:
            f.ty = hidden
    return Variant(name=VNAMES[i], style=style, fields=fs if style != "unit" else [], skip=choice)


def space(tier):
    deep = tier == "thorough"
    sp = g.Space()
    hiddens = [("none", NOM), ("leafd", D(LEAFD))]
    for hn, h in hiddens:
        for n in range(1, 5 if deep else 4):
            for cs in itertools.product(CHOICES, repeat=n):
                for kind in ("struct", "tuple"):
                    if kind == "tuple" and n == 1:
                        continue
                    sp.add_decl("%s(%s)%s" % (kind, cs, hn), Decl(kind=kind, fields=fields(kind == "struct", cs, h)), n)
                    if sum(not out(c) for c in cs) == 1:
                        sp.add_decl("transparent %s(%s)%s" % (kind, cs, hn),
                                    Decl(kind=kind, transparent=True, fields=fields(kind == "struct", cs, h)), n)
                if n >= 1:
                    sp.add_decl("tagged(%s)%s" % (cs, hn), Decl(kind="struct", struct_tag="tg", fields=fields(True, cs, h)), n)
                    sp.add_decl("camel(%s)%s" % (cs, hn), Decl(kind="struct", rename_all="camelCase", attr_style="split", fields=fields(True, cs, h)), n)
        for mode in ("external", "internal", "adjacent", "untagged"):
            # skipped variants: every style in every position
            for n in (1, 2, 3):
                styles = list(itertools.product(STYLES, repeat=n)) if (n < 3 or deep) else \
                    [s for s in itertools.product(STYLES, repeat=3) if len(set(s)) == 3 or len(set(s)) == 1]
                for ss in styles:
                    for cs in itertools.product(CHOICES[:3] if n == 3 and not deep else CHOICES, repeat=n):
                        if n == 3 and not deep and cs.count("skip_serializing") > 1:
                            continue
                        d = Decl(kind="enum", tagging=mode, variants=[variant(i, s, c, h) for i, (s, c) in enumerate(zip(ss, cs))])
                        sp.add_decl("%s[%s](%s)%s" % (mode, ",".join(ss), cs, hn), d, n)
            # skipped fields of variants, next to another variant
            for style, arity in (("newtype", 1), ("tuple", 2), ("tuple", 3), ("struct", 1), ("struct", 2), ("struct", 3)):
                for inner in itertools.product(CHOICES, repeat=arity):
                    for other in (None, "unit", "struct"):
                        vs = [variant(0, style, None, h, inner)]
                        if other:
                            vs.append(variant(1, other, None, h))
                        sp.add_decl("%s[%s%s+%s]%s" % (mode, style, inner, other, hn),
                                    Decl(kind="enum", tagging=mode, variants=copy.deepcopy(vs)), arity)
    # one hidden member, and all but one, at every position of larger containers
    sizes = range(5 if deep else 4, 13 if deep else 8)
    for hn, h in hiddens:
        special = [(c, {"skip": c, "ty": h}) for c in ("skip", "skip_serializing")]
        for lbl, d, f in g.positions(sizes, special):
            sp.add_decl("%s %s" % (lbl, hn), d, 2)
        for lbl, d, f in g.positions(sizes, [("skip", {})]):
            for x in d.fields + [x for v in d.variants for x in v.fields]:
                if x is not f:
                    x.skip, x.ty = "skip", h
            sp.add_decl("all but: %s %s" % (lbl, hn), d, 2)
        for lbl, d, v in g.variant_positions(range(4, 9 if deep else 6), [("skip", {"skip": "skip"})]):
            for x in v.fields:
                x.ty = h
            sp.add_decl("%s %s" % (lbl, hn), d, 2)
        for lbl, d, v in g.variant_positions(range(4, 9 if deep else 6), [("skip", {})]):
            for x in d.variants:
                if x is not v:
                    x.skip = "skip_serializing"
                    for f in x.fields:
                        f.ty = h
            sp.add_decl("all but: %s %s" % (lbl, hn), d, 2)
    # hidden members that carry every other attribute as well, in every arrangement
    shapes = ["struct", "tuple", "transparent"] + ["%s.%s" % (a, b) for a in ("external", "internal", "adjacent", "untagged") for b in ("struct", "tuple", "newtype") if (a, b) != ("internal", "tuple")]
    for hn, h in hiddens:
        for shape in shapes:
            for c in CHOICES[1:3]:
                for la, a in OTHERS:
                    named = shape in ("struct", "transparent") or shape.endswith(".struct")
                    if not named and (set(a) & {"optional", "rename"} or la in ("default", "flatten")) or la == "flatten" and shape == "transparent":
                        continue
                    for st in ("joined", "split", "reversed"):
                        for at in (0, 1):
                            fs = [Field(name="f%d" % i if named else str(i), ty=PAL["leaf"]) for i in range(2)]
                            for k, x in dict(a, skip=c, ty=h).items():
                                setattr(fs[at], k, copy.deepcopy(x))
                            if shape in ("struct", "tuple", "transparent"):
                                if shape == "transparent" and (a.get("rename") or a.get("skip_if")):
                                    continue
                                d = Decl(kind="tuple" if shape == "tuple" else "struct", transparent=shape == "transparent", fields=fs, attr_style=st)
                            else:
                                mode, style = shape.split(".")
                                vs = [Variant(name="Va", style=style, fields=fs[at:at + 1] if style == "newtype" else fs), Variant(name="Vb", style="struct", fields=[Field(name="x", ty=U8)])]
                                d = Decl(kind="enum", tagging=mode, variants=vs, attr_style=st)
                            sp.add_decl("%s %s+%s %s at %d %s" % (shape, c, la, st, at, hn), d, 3, both=True, check_values=True)
        for mode in ("external", "internal", "adjacent", "untagged"):
            for style in STYLES:
                for c in CHOICES[1:3]:
                    for la, a in VOTHERS:
                        if set(a) & {"rename_all"} and style != "struct" or la == "other" and c == "skip":
                            continue
                        for st in ("joined", "split", "reversed"):
                            for at in (0, 1):
                                vs = [variant(0, "struct", None, h), variant(1, "newtype" if mode == "external" else "struct", None, h)]
                                vs[at] = variant(at, style, c, h)
                                for k, x in a.items():
                                    setattr(vs[at], k, copy.deepcopy(x))
                                sp.add_decl("%s %s %s+%s %s at %d %s" % (mode, style, c, la, st, at, hn), Decl(kind="enum", tagging=mode, variants=vs, attr_style=st), 3, check_values=True)
    # hidden variants with hidden fields, and with fields that carry every other attribute
    for hn, h in hiddens:
        for mode in ("external", "internal", "adjacent", "untagged"):
            for style, arity in (("newtype", 1), ("tuple", 2), ("struct", 1), ("struct", 2)) + ((("struct", 3),) if deep else ()):
                if mode == "internal" and style == "tuple":
                    continue
                for c in CHOICES:
                    for at in (0, 1):
                        for inner in itertools.product(CHOICES, repeat=arity):
                            for other in ("unit", "struct") if deep else ("struct",):
                                vs = [variant(0, style, c, h, inner), variant(1, other, None, h)]
                                sp.add_decl("%s %s %s of %s beside %s at %d %s" % (mode, c, style, inner, other, at, hn),
                                            Decl(kind="enum", tagging=mode, variants=vs[::-1] if at else vs), 3)
                        for la, a in OTHERS:
                            if c is None or style != "struct" and (set(a) & {"optional", "rename"} or la in ("default", "flatten")) or la in ("with", "module", "flatten") and not out(c):
                                continue
                            for which in range(arity):
                                v = variant(0, style, c, h)
                                del v.fields[arity:]
                                for k, x in a.items():
                                    setattr(v.fields[which], k, copy.deepcopy(x))
                                vs = [v, variant(1, "struct", None, h)]
                                sp.add_decl("%s %s %s with %s in %d at %d %s" % (mode, c, style, la, which, at, hn),
                                            Decl(kind="enum", tagging=mode, variants=vs[::-1] if at else vs), 3)
    # spelled types next to a hidden one, and hidden members of spelled types
    for lbl, d, f, kw in g.spelled(lambda k, t: Decl(kind="struct", fields=[Field(name="a", ty=t), Field(name="b", ty=NOM, skip="skip")]), ("struct",), ({}, {"skip": "skip_serializing"}, {"skip": "skip"})):
        sp.add_decl(lbl, d, 2, check_values=True, **kw)
    for choices in itertools.product(CHOICES, repeat=3):
        # serde_repr numbers the variants it skips too
        if all(c is None or c == "skip_deserializing" for c in choices):
            sp.add_decl("repr(%s)" % (choices,), Decl(kind="enum", tagging="repr", variants=[
                Variant(name=VNAMES[i]) for i, c in enumerate(choices)]), 3)
    return sp


def check(tier, t0):
    sp = space(tier)
    return g.run_space("C05", tier, t0, sp,
                       {"fields": 4 if tier == "thorough" else 3, "variants": 3, "skip spellings": CHOICES,
                        "types of hidden members": ["a type without a schema", "a named type"]},
                       drop=("description", "format"),
                       assumptions=["a hidden member's type has no schema at all in half of the states, so a bound or mention of it does not compile"])
