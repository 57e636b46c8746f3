"""Structs: the schema is the shape of the JSON that serde writes."""
import itertools

import derive as g
import model as m
from derive import PAL, PALETTE
from model import D, Decl, Field, O, U8
from props.c07 import container

SMALL = ["u8", "str", "opt_leaf", "leaf", "vec_leaf", "inl"]
NAMES = "abc"


def fields(kind, tys):
    return [Field(name=NAMES[i] if kind == "struct" else str(i), ty=t) for i, t in enumerate(tys)]


def space(tier):
    sp = g.Space()
    deep = tier == "thorough"
    pal = PALETTE
    sp.add_decl("struct{}", Decl(kind="struct"))
    sp.add_decl("tuple()", Decl(kind="tuple"))
    for n, t in pal:
        for kind in ("struct", "newtype"):
            sp.add_decl("%s[%s]" % (kind, n), Decl(kind=kind, fields=fields(kind, [t])))
        sp.add_decl("transparent[%s]" % n, Decl(kind="struct", transparent=True, fields=fields("struct", [t])))
        sp.add_decl("transparent1[%s]" % n, Decl(kind="newtype", transparent=True, fields=fields("newtype", [t])))
        sp.add_decl("transparent+skip[%s]" % n, Decl(
            kind="struct", transparent=True,
            fields=[Field(name="p", ty=("raw", "std::marker::PhantomData<NoModel>", {}, ["std::marker::PhantomData"]), skip="skip")] + fields("struct", [t])))
        sp.add_decl("transparent+skip1[%s]" % n, Decl(
            kind="tuple", transparent=True,
            fields=fields("tuple", [t]) + [Field(name="1", ty=("raw", "std::marker::PhantomData<NoModel>", {}, ["std::marker::PhantomData"]), skip="skip")]))
    pairs = pal if deep else pal[:16]
    for (n1, t1), (n2, t2) in itertools.product(pairs, pairs):
        for kind in ("struct", "tuple"):
            sp.add_decl("%s[%s,%s]" % (kind, n1, n2), Decl(kind=kind, fields=fields(kind, [t1, t2])), 2)
    trip = SMALL if deep else SMALL[:4]
    for ns in itertools.product(trip, repeat=3):
        for kind in ("struct", "tuple"):
            sp.add_decl("%s[%s]" % (kind, ",".join(ns)),
                        Decl(kind=kind, fields=fields(kind, [PAL[n] for n in ns])), 3)
    # attribute deviations
    k = 3 if deep else 2
    for ns in (("u8", "opt_leaf"), ("inl", "vec_leaf")):
        for kind in ("struct", "tuple"):
            base = Decl(kind=kind, fields=fields(kind, [PAL[n] for n in ns]))
            sites = [s for s in g.container_sites(kind) if s[0] not in ("fmt", "ex", "desc")]
            if kind == "struct":
                sites.append(("tag", [("S.tag", g.setter(lambda d: d, "struct_tag", "tg"))]))
            for i in range(2):
                sites += [s for s in g.field_sites(lambda d, i=i: d.fields[i], "F%d" % i, named=kind == "struct")
                          if not s[0].endswith(("desc", "fmt", "ex"))]
            lim = k if ns[0] == "u8" else 1
            for lbl, d, n in g.deviations(base, sites, lim):
                sp.add_decl("%s[%s]+%s" % (kind, ",".join(ns), lbl), d, n)
    for n in ("u8", "str", "leaf", "opt_leaf", "unt", "vec_leaf", "color"):
        for tr in (False, True):
            base = Decl(kind="newtype", transparent=tr, fields=fields("newtype", [PAL[n]]))
            sites = [s for s in g.container_sites("newtype", explicit=True) if s[0] not in ("fmt", "ex", "desc")]
            sites += [s for s in g.field_sites(lambda d: d.fields[0], "F0", named=False, skip=False)
                      if not s[0].endswith(("desc", "fmt", "ex"))]
            for lbl, d, nd in g.deviations(base, sites, 2):
                sp.add_decl("%s[%s]+%s" % ("transparent" if tr else "newtype", n, lbl), d, nd)
    # sizes, and one unusual member at every position
    for shape in ("struct", "tuple"):
        for n in list(range(4, 25)) + ([32, 33, 40, 64, 65, 100] if deep else [33]):
            sp.add_decl("%s of %d" % (shape, n), g.wide(shape, n)[0], n)
    special = [("unit", {"ty": PAL["unit"]}), ("any", {"explicit": "any"}), ("skip", {"skip": "skip"}), ("rename", {"rename": "zz"}),
               ("inline", {"inline": True}), ("opt_unt", {"ty": PAL["opt_unt"]})]
    for lbl, d, _ in g.positions(range(3, 10 if deep else 7), special, shapes=("struct", "tuple")):
        sp.add_decl(lbl, d, 2)
    # the same types spelled differently
    for lbl, d, _, kw in g.spelled(container, ("struct", "tuple", "newtype", "transparent"), ({}, {"inline": True}, {"skip_if": "toggle"})):
        if d.fields[0].skip_if and d.kind != "struct" or d.transparent and d.fields[0].skip_if:
            continue
        sp.add_decl(lbl, d, 2, **kw)
    # every constructor around a member
    for n, c in g.contexts(deep):
        for kind in ("struct", "tuple", "newtype", "transparent"):
            for ln in ("leaf", "u8"):
                sp.add_decl("%s<%s %s>" % (kind, n, ln), container(kind, c(PAL[ln])), 2, check_values=False)
    return sp


def flatten_space():
    """Recorded findings: attributes of serde which the generator does not apply."""
    sp = g.Space()
    for n in ("leaf", "map_u8"):
        d = Decl(kind="struct", fields=[Field(name="a", ty=U8), Field(name="b", ty=PAL[n], flatten=True)])
        sp.add_decl("flatten[%s]" % n, d, meta={"known": "flatten-ignored"})
    return sp


def check(tier, t0):
    sp = space(tier)
    for c in flatten_space().cases:
        sp.cases.append(c)
        sp.transitions += 1

    return g.run_space(
        "C01", tier, t0, sp,
        {"fields": 3, "field types": len(PALETTE), "attribute deviations": 3 if tier == "thorough" else 2},
        drop=m.ANNOT + ("format",), classify=lambda c, v: c.meta.get("known"),
        assumptions=["JSON is what serde_json::to_value writes",
                     "values: every constructor choice, one deviation at a time"])
