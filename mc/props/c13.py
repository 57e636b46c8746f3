"""Descriptions, formats and examples appear where they were written, and only there."""
import copy
import itertools

import core
import derive as g
import model as m
import shapes
from derive import LEAF, PAL
from model import D, Decl, Field, O, STR, U8, V, Variant, W
from props.c07 import container

TYPES = ["u8", "str", "bool", "f64", "leaf", "leafd", "nt", "inln", "inl", "color", "unt", "opt_leaf", "opt_u8", "vec_str", "map_u8",
         "box_leaf", "unit", "ntleaf", "char", "tup", "opt_inl", "ext", "adj", "intr", "num", "opt_unt"]
KINDS = ["struct", "tuple", "newtype", "transparent"] + \
    ["%s.%s" % (a, b) for a in ("external", "internal", "adjacent", "untagged") for b in ("newtype", "tuple", "struct")
     if (a, b) != ("internal", "tuple")]
# (site, what)
EXPRS = [("1 + 1", "2"), ("(1 + 2) * 3", "9"), ("String::from(\\\"aaa\\\")", "aaa"), ("3.5f32", "3.5"), ("true", "true"), ("-7", "-7"), ("'x'", "x"),
         ("300u16 as u8", "44"), ("f64::from(1u8)", "1"), ("crate::prelude::EXAMPLE_CONST", "from const")]
TEXTS = ["plain", "", "with \"quotes\" and \\ backslash", "two\nlines", "ünï {} {{x}}", " leading and trailing "]


def nodes(d):
    """(letter, node) of every place annotations can be written on"""
    out = [("C", d)]
    if d.kind == "enum":
        out.append(("V", d.variants[0]))
        out.append(("W", d.variants[1]))
        out += [("F%d" % i, f) for i, f in enumerate(d.variants[0].fields)]
    else:
        out += [("F%d" % i, f) for i, f in enumerate(d.fields)]
    return out


def annotate(d, picks):
    for letter, node in nodes(d):
        for site, what in picks:
            if site != letter:
                continue
            if what == "d":
                node.desc = "d" + letter
            elif what == "f":
                node.format = "f" + letter
            elif what == "e":
                node.example = "e" + letter
            elif what == "x":
                node.example_with = ("1 + %d" % len(letter), str(1 + len(letter)))


def sites(d, whats):
    return [(l, w) for l, _ in nodes(d) for w in whats]


def space(tier):
    deep = tier == "thorough"
    sp = g.Space()

    def add(label, base, picks, **kw):
        chosen = {(l, {"x": "e"}.get(w, w)) for l, w in picks}
        if len(chosen) != len(picks):
            return
        d = copy.deepcopy(base)
        annotate(d, picks)
        sp.add_decl("%s {%s}" % (label, " ".join(l + "." + w for l, w in picks)), d, 1 + len(picks), check_values=False, **kw)

    # every type: up to two annotations
    for kind in KINDS:
        for tn in TYPES:
            base = container(kind, PAL[tn])
            two = deep or tn in ("u8", "leaf", "leafd", "nt", "inl", "bool", "unt")
            ss = sites(base, "dfe" if not deep else "dfex")
            for n in range(0, 3 if two else 2):
                for picks in itertools.combinations(ss, n):
                    add("%s<%s>" % (kind, tn), base, picks)
        # every assignment of one kind of annotation to all places, every pair of such assignments on strings
        for tn in ("str", "leaf", "inln") if not deep else ("str", "leaf", "inln", "opt_u8", "color", "inl"):
            base = container(kind, PAL[tn])
            places = [l for l, _ in nodes(base)]
            for w in "dfex":
                for n in range(len(places) + 1):
                    for ps in itertools.combinations(places, n):
                        add("%s<%s>" % (kind, tn), base, [(p, w) for p in ps])
            for n in range(len(places) + 1):
                for ps in itertools.combinations(places, n):
                    add("%s<%s>" % (kind, tn), base, [(p, w) for p in ps for w in "dfe"])
        # the same text in several places, on a member whose type carries it too
        for tn in ("str", "leafd", "inl"):
            base = container(kind, PAL[tn])
            for text in ("leaf", "same", "0", "string", "int64"):
                ss = sites(base, "dfe")
                for n in (1, 2) if not deep else (1, 2, 3):
                    for picks in itertools.combinations(ss, n):
                        d = copy.deepcopy(base)
                        for letter, node in nodes(d):
                            for site, what in picks:
                                if site == letter:
                                    setattr(node, {"d": "desc", "f": "format", "e": "example"}[what], text)
                        sp.add_decl("same %s<%s> %r {%s}" % (kind, tn, text, " ".join(l + "." + w for l, w in picks)), d, 1 + n, check_values=False)
        # explicit types take the annotations of their member
        for e in ("string", "integer", "number", "boolean", "any"):
            for tn in ("leaf", "u8"):
                base = container(kind, PAL[tn])
                f = base.fields[0] if base.kind != "enum" else base.variants[0].fields[0]
                f.explicit = e
                for n in (0, 1, 2):
                    for picks in itertools.combinations(sites(base, "dfe"), n):
                        add("%s<%s as %s>" % (kind, tn, e), base, picks)
        # inlined and optional members
        for tn in ("leafd", "inl", "nt", "unt"):
            for attr in ("inline", "nullable"):
                base = container(kind, PAL[tn])
                f = base.fields[0] if base.kind != "enum" else base.variants[0].fields[0]
                setattr(f, attr, True)
                for n in (0, 1):
                    for picks in itertools.combinations(sites(base, "dfex"), n):
                        add("%s<%s %s>" % (kind, tn, attr), base, picks)
    # enums of units, numeric enums, lone unit variants
    for mode in ("external", "internal", "adjacent", "repr"):
        base = Decl(kind="enum", tagging=mode, variants=[Variant(name="A"), Variant(name="B")])
        for n in range(0, 5 if deep else 4):
            for picks in itertools.combinations(sites(base, "dfex"), n):
                add("units %s" % mode, base, picks)
    for mode in ("external", "internal", "adjacent", "untagged"):
        base = Decl(kind="enum", tagging=mode, variants=[Variant(name="A"), Variant(name="B", style="newtype", fields=[Field(name="0", ty=D(LEAF))])])
        for n in range(0, 3):
            for picks in itertools.combinations(sites(base, "dfex"), n):
                add("unit+newtype %s" % mode, base, picks)
    # two members of one type: the annotation of one is not that of the other
    for tn in ("str", "leaf", "leafd", "inl", "nt", "opt_leaf", "color"):
        for kind in ("struct", "tuple"):
            base = Decl(kind=kind, fields=[Field(name="a" if kind == "struct" else "0", ty=PAL[tn]), Field(name="b" if kind == "struct" else "1", ty=PAL[tn])])
            for n in (1, 2, 3):
                for picks in itertools.combinations([s for s in sites(base, "dfe") if s[0] != "C"], n):
                    add("pair %s<%s>" % (kind, tn), base, picks)
    # one annotated member at every position of larger containers
    special = [("d", {"desc": "dd"}), ("f", {"format": "ff"}), ("e", {"example": "ee"}), ("dfe", {"desc": "dd", "format": "ff", "example_with": ("1 + 1", "2")})]
    for lbl, d, _ in g.positions(range(3, 9 if deep else 6), special, fill=("str", "leafd", "u8", "inl", "opt_u8")):
        sp.add_decl(lbl, d, 2, check_values=False)
    for lbl, d, _ in g.variant_positions(range(3, 7 if deep else 5), special):
        sp.add_decl(lbl, d, 2, check_values=False)
    # texts and expressions
    for kind in ("struct", "newtype", "external.newtype", "external.struct", "tuple", "untagged.newtype"):
        for i, text in enumerate(dict.fromkeys(TEXTS + m.words(deep and kind in ("struct", "external.newtype")))):
            for what in "dfe":
                for l in ("C", "V", "F0"):
                    if l == "V" and "." not in kind:
                        continue
                    d = container(kind, STR)
                    for letter, node in nodes(d):
                        if letter == l:
                            setattr(node, {"d": "desc", "f": "format", "e": "example"}[what], text)
                    sp.add_decl("text %s %s.%s#%d" % (kind, l, what, i), d, 1, check_values=False)
        for i, (expr, val) in enumerate(EXPRS):
            for l in ("C", "V", "F0"):
                d = container(kind, STR)
                for letter, node in nodes(d):
                    if letter == l:
                        node.example_with = (Raw(expr), val)
                sp.add_decl("expr %s %s#%d" % (kind, l, i), d, 1, check_values=False)
    # every small type, annotated at each of its sites
    for lbl, d in shapes.every(triples=deep):
        for marks in ({"desc": "d@"}, {"format": "f@"}, {"example": "e@"}, {"desc": "d@", "format": "f@", "example": "e@"}) if deep else \
                ({"desc": "d@", "format": "f@", "example": "e@"},):
            for l2, d2 in shapes.marked(lbl, d, marks, "CVF", 1):
                sp.add_decl("shape " + l2, d2, 3, check_values=False)
    # annotated members which are hidden, in annotated types and variants
    for lbl, d in shapes.every(triples=False):
        for outer in ("", "CV"):
            for letter in ("C", "V"):
                if letter in outer:
                    for _, x in shapes.sites(d, letter):
                        x.desc, x.format, x.example = "do", "fo", "eo"
            for l2, d2 in shapes.marked(lbl, d, {"desc": "d@", "format": "f@", "example": "e@", "skip": "skip"}, "F", 1):
                sp.add_decl("hidden %s %s" % (outer, l2), d2, 4, check_values=False)
    # a described container mentioned by an annotated field of another type
    for outer, inner in itertools.product(("", "d", "f", "e", "dfe"), repeat=2):
        for k in ("struct", "newtype", "enum"):
            for wrap in (lambda t: t, O, V, lambda t: W("Box", t)):
                for inline in (False, True):
                    i = Decl(name="Inner", kind="struct", fields=[Field(name="s", ty=STR)]) if k == "struct" else \
                        Decl(name="Inner", kind="newtype", fields=[Field(name="0", ty=STR)]) if k == "newtype" else \
                        Decl(name="Inner", kind="enum", variants=[Variant(name="A"), Variant(name="B")])
                    annotate(i, [("C", w) for w in inner])
                    o = Decl(name="Outer", fields=[Field(name="x", ty=wrap(D(i)), inline=inline), Field(name="y", ty=D(i))])
                    annotate(o, [("F0", w) for w in outer])
                    sp.add("mention %s/%s %s %s %s" % (outer, inner, k, m.rust(o.fields[0].ty), inline), D(o), [i, o], 3, check_values=False)
    return sp


class Raw(str):
    pass


def check(tier, t0):
    sp = space(tier)
    prelude = g.PRELUDE + "\npub const EXAMPLE_CONST: &str = \"from const\";\n"
    results, violations = core.build_and_run("C13", sp.cases, prelude=prelude, deps=("serde_repr",))
    outcomes = 0
    if results:
        vs, outcomes, _ = g.compare(sp.cases, results, None, keep=("description", "format", "example"), parts=("ref", "components", "schema"), accept=False)
        violations += vs
    cov = {"states": len(sp.cases), "transitions": sp.transitions, "traces_validated_against_impl": len(results),
           "distinct_outcomes": outcomes, "exhaustive": True,
           "bounds": {"annotations at once": "2 of any kind, one kind in all places, all kinds in all places", "containers": len(KINDS), "member types": len(TYPES)},
           "samples": g.samples(sp.cases, results)}
    return core.finish("C13", tier, t0, cov, violations, ["annotation texts are opaque to the library (six shapes of texts are enumerated)"])
