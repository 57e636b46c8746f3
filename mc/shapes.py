"""Types of every kind and small size, and marks at each of their sites."""
import copy
import itertools

import derive as g
from derive import PAL
from model import Decl, Field, STR, U8, Variant

MODES = ("external", "internal", "adjacent", "untagged")
PARTS = [("field", lambda n: Field(name=n, ty=PAL["leaf"])), ("opt", lambda n: Field(name=n, ty=PAL["opt_u8"])), ("str", lambda n: Field(name=n, ty=STR)),
         ("skipped", lambda n: Field(name=n, ty=U8, skip="skip")), ("inl", lambda n: Field(name=n, ty=PAL["inl"]))]


def structs(most=2):
    for n in range(0, most + 1):
        for combo in itertools.product(PARTS, repeat=n):
            label = ",".join(l for l, _ in combo)
            yield "struct{%s}" % label, Decl(fields=[f("f_%d" % i) for i, (_, f) in enumerate(combo)])
            yield "tagged{%s}" % label, Decl(struct_tag="tg", fields=[f("f_%d" % i) for i, (_, f) in enumerate(combo)])
            if n == 1:
                yield "newtype(%s)" % label, Decl(kind="newtype", fields=[combo[0][1]("0")])
            else:
                yield "tuple(%s)" % label, Decl(kind="tuple", fields=[f(str(i)) for i, (_, f) in enumerate(combo)])
            yield "transparent{%s}" % label, Decl(transparent=True, fields=[f("f_%d" % i) for i, (_, f) in enumerate(combo)])


def enums(triples=False):
    from props.c02 import MIXED, SMALL, enum
    for mode in MODES:
        for ss in itertools.chain(((s,) for s in MIXED + ("tuple0",)), itertools.product(MIXED, repeat=2), itertools.product(SMALL, repeat=3) if triples else ()):
            yield "%s[%s]" % (mode, ",".join(ss)), enum(mode, ss)
    for n in (1, 2, 3):
        yield "repr[%d]" % n, Decl(kind="enum", tagging="repr", variants=[Variant(name="V%d" % i) for i in range(n)])


def every(triples=False, most=2):
    for lbl, d in itertools.chain(structs(most), enums(triples)):
        if g.valid(d):
            yield lbl, d


def sites(d, kinds="CVF"):
    out = [("C", d)] if "C" in kinds else []
    if "F" in kinds:
        out += [("F%d" % j, f) for j, f in enumerate(d.fields)]
    for i, v in enumerate(d.variants):
        if "V" in kinds:
            out.append(("V%d" % i, v))
        if "F" in kinds:
            out += [("V%dF%d" % (i, j), f) for j, f in enumerate(v.fields)]
    return out


def marked(lbl, d, marks, kinds="CVF", together=1):
    """That type with the marks at each choice of sites."""
    names = [s for s, _ in sites(d, kinds)]
    for n in range(1, together + 1):
        for combo in itertools.combinations(names, n):
            new = copy.deepcopy(d)
            at = dict(sites(new, kinds))
            for s in combo:
                for k, v in marks.items():
                    setattr(at[s], k, v.replace("@", s) if isinstance(v, str) else v)
            if g.valid(new):
                yield "%s %s at %s" % (lbl, ",".join(marks), "+".join(combo)), new
