"""Enumeration of user types and comparison with the reference model."""
import copy
import itertools
import json

import core
import model as m
import validate
from model import A, BOOL, D, Decl, F64, Field, M, O, P, STR, TUP, U8, UNIT, V, Variant, W

# ------------------------------------------------------------------ prelude

LEAF = Decl(name="Leaf", kind="struct", fields=[Field(name="v", ty=P("u32"))], shared=True,
            derives=["Clone"])
LEAFD = Decl(name="LeafD", kind="struct", desc="leaf", fields=[Field(name="w", ty=O(P("i64")))],
             shared=True)
NT = Decl(name="Nt", kind="newtype", fields=[Field(name="0", ty=STR)], format="nt", shared=True)
NTL = Decl(name="NtLeaf", kind="newtype", fields=[Field(name="0", ty=D(LEAF))], shared=True)
TS = Decl(name="Ts", kind="tuple", fields=[Field(name="0", ty=U8), Field(name="1", ty=STR)],
          shared=True)
COLOR = Decl(name="Color", kind="enum", shared=True, derives=["PartialEq", "Eq", "Hash", "PartialOrd", "Ord"],
             variants=[Variant(name="Red"), Variant(name="Green")])
INL = Decl(name="Inl", kind="struct", inline=True, desc="inl", shared=True,
           fields=[Field(name="x", ty=BOOL)])
INLN = Decl(name="InlNt", kind="newtype", inline=True, shared=True, format="inf",
            fields=[Field(name="0", ty=P("i16"))])
UNT = Decl(name="Unt", kind="enum", tagging="untagged", shared=True, desc="unt",
           variants=[Variant(name="N", style="newtype", fields=[Field(name="0", ty=U8)]),
                     Variant(name="L", style="newtype", fields=[Field(name="0", ty=D(LEAF))])])
INT = Decl(name="Intr", kind="enum", tagging="internal", tag="kind", shared=True,
           variants=[Variant(name="A"), Variant(name="B", style="struct",
                                                fields=[Field(name="n", ty=U8)])])
ADJ = Decl(name="Adj", kind="enum", tagging="adjacent", tag="k", content="d", shared=True,
           variants=[Variant(name="A"), Variant(name="B", style="newtype",
                                                fields=[Field(name="0", ty=U8)])])
EXT = Decl(name="Extn", kind="enum", shared=True,
           variants=[Variant(name="A", style="newtype", fields=[Field(name="0", ty=D(LEAF))]),
                     Variant(name="B", style="struct", fields=[Field(name="n", ty=U8)])])
REPR = Decl(name="Num", kind="enum", tagging="repr", shared=True,
            variants=[Variant(name="One", disc="1"), Variant(name="Two", disc="2")])
NULLABLE = Decl(name="Nul", kind="struct", nullable=True, shared=True,
                fields=[Field(name="z", ty=U8)])
ANYN = Decl(name="Anything", kind="newtype", shared=True, fields=[Field(name="0", ty=D(LEAF), explicit="any")])
TAGGED = Decl(name="Tagged", kind="struct", struct_tag="tg", shared=True, fields=[Field(name="y", ty=U8)])
TRANSP = Decl(name="Transp", kind="struct", transparent=True, shared=True,
              fields=[Field(name="h", ty=STR, skip="skip"), Field(name="l", ty=D(LEAF))])
UNTI = Decl(name="UntInl", kind="enum", tagging="untagged", inline=True, shared=True,
            variants=[Variant(name=n, style="newtype", fields=[Field(name="0", ty=t)])
                      for n, t in (("A", U8), ("B", BOOL), ("C", D(LEAF)), ("D", STR), ("E", V(U8)))])
INTI = Decl(name="IntrInl", kind="enum", tagging="internal", tag="kind", inline=True, shared=True,
            variants=[Variant(name="A"), Variant(name="B", style="newtype", fields=[Field(name="0", ty=D(LEAF))])])
NULU = Decl(name="NulUnt", kind="enum", tagging="untagged", nullable=True, shared=True,
            variants=[Variant(name="A", style="newtype", fields=[Field(name="0", ty=U8)]),
                      Variant(name="B", style="newtype", fields=[Field(name="0", ty=STR)])])
NTO = Decl(name="NtOpL", kind="newtype", shared=True, fields=[Field(name="0", ty=O(D(LEAF)))])
SHARED = [LEAF, LEAFD, NT, NTL, TS, COLOR, INL, INLN, UNT, INT, ADJ, EXT, REPR, NULLABLE, ANYN, TAGGED, TRANSP, UNTI, INTI, NULU, NTO]

USES = "use opg::*;\npub use vsupport::{leak, skip_always, skip_never, skip_toggle, NoModel};\n"
PRELUDE = USES + "\n".join(m.render(d) for d in SHARED)

# simplest first
PALETTE = [
    ("u8", U8), ("str", STR), ("bool", BOOL), ("f64", F64), ("leaf", D(LEAF)),
    ("opt_u8", O(U8)), ("opt_leaf", O(D(LEAF))), ("vec_str", V(STR)), ("vec_leaf", V(D(LEAF))),
    ("map_u8", M(U8)), ("map_leaf", M(D(LEAF), "BTreeMap")), ("box_leaf", W("Box", D(LEAF))),
    ("tup", TUP(U8, STR)), ("color", D(COLOR)), ("inl", D(INL)), ("unt", D(UNT)),
    ("opt_unt", O(D(UNT))), ("nt", D(NT)), ("ts", D(TS)), ("arr", A(2, U8)), ("unit", UNIT),
    ("opt_vec_leaf", O(V(D(LEAF)))), ("vec_opt_leaf", V(O(D(LEAF)))), ("intr", D(INT)),
    ("adj", D(ADJ)), ("ext", D(EXT)), ("num", D(REPR)), ("ntleaf", D(NTL)), ("leafd", D(LEAFD)),
    ("inln", D(INLN)), ("opt_box_leafd", O(W("Box", D(LEAFD)))), ("nul", D(NULLABLE)),
    ("opt_inl", O(D(INL))), ("opt_color", O(D(COLOR))), ("char", P("char")),
    ("anyn", D(ANYN)), ("tagged", D(TAGGED)), ("transp", D(TRANSP)), ("unti", D(UNTI)), ("inti", D(INTI)),
    ("nulu", D(NULU)), ("nto", D(NTO)), ("opt_unti", O(D(UNTI))), ("opt_anyn", O(D(ANYN))), ("vec_nulu", V(D(NULU))),
]
PAL = dict(PALETTE)




def contexts(deep=False):
    """Every built-in type constructor with one argument: [(label, constructor)]."""
    out = [(w, lambda t, w=w: W(w, t)) for w in ("Box", "Rc", "Arc", "Cell", "RefCell", "ref", "mut")]
    out.append(("Option", O))
    out += [(s, lambda t, s=s: V(t, s)) for s in m.SEQ if s != "slice"]
    out += [(w + "[T]", lambda t, w=w: W(w, V(t, "slice"))) for w in ("ref", "Box", "Rc", "Arc")]
    lens = (0, 1, 2, 3, 16, 31, 32, 33, 64, 100, 1000) if not deep else list(range(0, 41)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]
    out += [("[T;%d]" % n, lambda t, n=n: A(n, t)) for n in lens]
    out += [("%s<%s>" % (k, key), lambda t, k=k, key=key: M(t, k, key)) for k in m.MAP for key in ("String", "u8", "char", "i64", "bool", "Color")]
    for n in range(1, 11):
        for i in range(n):
            if deep or i in (0, n // 2, n - 1):
                out.append(("tuple %d.%d" % (n, i), lambda t, n=n, i=i: TUP(*([U8] * i + [t] + [STR] * (n - i - 1)))))
    return out


SPELLINGS = [
    # (label, items beside the type, spelling of u8, Option<Leaf>, Vec<Leaf>, Leaf, Box<Leaf>)
    ("std path", "", ("std::primitive::u8", "std::option::Option<Leaf>", "std::vec::Vec<Leaf>", "self::Leaf", "std::boxed::Box<Leaf>")),
    ("core path", "", ("core::primitive::u8", "::core::option::Option<self::Leaf>", "::std::vec::Vec<Leaf>", "crate::prelude::Leaf", "::std::boxed::Box<self::Leaf>")),
    ("parentheses", "", ("(u8)", "(Option<Leaf>)", "(Vec<(Leaf)>)", "(Leaf)", "(Box<(Leaf)>)")),
    ("alias", "pub type TyA = u8; pub type TyB = Option<Leaf>; pub type TyC = Vec<Leaf>; pub type TyD = Leaf; pub type TyE = Box<Leaf>;", ("TyA", "TyB", "TyC", "TyD", "TyE")),
    ("generic alias", "pub type Opt<T> = Option<T>; pub type List<T> = Vec<T>; pub type Same<T> = T; pub type Ptr<T> = Box<T>;", ("Same<u8>", "Opt<Leaf>", "List<Leaf>", "Same<Leaf>", "Ptr<Leaf>")),
    ("import", "pub use std::option::Option as Maybe; pub use std::vec::Vec as List; pub use crate::prelude::Leaf as Leaves; pub use std::boxed::Box as Ptr; pub use std::primitive::u8 as byte;",
     ("byte", "Maybe<Leaf>", "List<Leaves>", "Leaves", "Ptr<Leaf>")),
    ("module", "pub mod option { pub use crate::prelude::Leaf; pub type Option = std::option::Option<Leaf>; pub type Vec = std::vec::Vec<Leaf>; pub type u8 = std::primitive::u8; pub type Box = std::boxed::Box<Leaf>; pub type Str = Leaf; }",
     ("option::u8", "option::Option", "option::Vec", "option::Str", "option::Box")),
    ("projection", "pub trait Pro { type Out; } impl<T> Pro for (T,) { type Out = T; }", ("<(u8,) as Pro>::Out", "<(Option<Leaf>,) as Pro>::Out", "<(Vec<Leaf>,) as Pro>::Out", "<(Leaf,) as Pro>::Out", "<(Box<Leaf>,) as Pro>::Out")),
    ("macro", "macro_rules! same { ($($t:tt)*) => { $($t)* } }", ("same!(u8)", "same!(Option<Leaf>)", "same!(Vec<Leaf>)", "same!(Leaf)", "same!(Box<Leaf>)")),
    ("misleading alias", "pub type Vec1 = u8; pub type OptionLeaf = Option<Leaf>; pub type String2 = Vec<Leaf>; pub type PhantomDate = Leaf; pub type OptionBox = Box<Leaf>;",
     ("Vec1", "OptionLeaf", "String2", "PhantomDate", "OptionBox")),
]
SPELLED = [U8, O(D(LEAF)), V(D(LEAF)), D(LEAF), W("Box", D(LEAF))]


def spellings():
    """The same type written differently: yields (label, spelling, type, keywords of Space.add)."""
    for label, items, texts in SPELLINGS:
        for text, t in zip(texts, SPELLED):
            yield "%s %s" % (label, text), text, t, {"prefix": items + "\n"}
    for t in SPELLED:
        for frag in ("ty", "tt"):
            if frag == "tt" and t[0] not in ("p", "d"):
                continue
            yield "macro argument %s %s" % (frag, m.rust(t)), "$t", t, {
                "wrap": lambda items, t=t, frag=frag: "macro_rules! declare { ($t:%s) => {\n%s\n} }\ndeclare!(%s);" % (frag, items, m.rust(t))}


def spelled(container, kinds, attrs=({},)):
    """Members of spelled types in every kind of container.

    container(kind, type) -> Decl whose first member is the one to spell."""
    for kind in kinds:
        for label, text, t, kw in spellings():
            for a in attrs:
                d = container(kind, t)
                f = (d.fields or d.variants[0].fields)[0]
                f.bare_ty = text
                for k, v in a.items():
                    setattr(f, k, copy.deepcopy(v))
                yield "%s spelled %s %s" % (kind, label, ",".join(a)), d, f, kw


# -------------------------------------------------------------- enumeration

def deviations(base, sites, k):
    """All ways of taking at most k of the deviations, at most one per site.

    sites: [(site, [(label, function on the copy)])].  Yields (label, decl, count)."""
    for n in range(0, k + 1):
        for combo in itertools.combinations(sites, n):
            for picks in itertools.product(*[alts for _, alts in combo]):
                d = copy.deepcopy(base)
                for _, fn in picks:
                    fn(d)
                yield "+".join(lbl for lbl, _ in picks), d, n


def setter(path, attr, value):
    """A deviation assigning one attribute; path selects the node in the copy."""
    def fn(d):
        setattr(path(d), attr, value)
    return fn


def field_sites(sel, tag, named=True, tuple_like=False, skip=True, explicit=True, newtype=False):
    """Attribute deviations of one field (sel: decl -> field)."""
    def s(attr, value, label):
        return ("%s.%s" % (tag, label), setter(sel, attr, value))

    sites = []
    if named:
        sites.append((tag + "rename", [s("rename", "ren" + tag, "rename")]))
    if skip:
        alts = [s("skip", "skip", "skip"), s("skip", "skip_serializing", "skip_ser"),
                s("skip", "skip_deserializing", "skip_de")]
        if named:
            alts.append(s("skip_if", "toggle", "skip_if"))
        sites.append((tag + "skip", alts))
    if named or newtype:
        sites.append((tag + "default", [s("extra_serde", ("default",), "default")]))
    if named:
        sites.append((tag + "opt", [s("optional", True, "optional")]))
    sites.append((tag + "desc", [s("desc", "d" + tag, "desc")]))
    sites.append((tag + "fmt", [s("format", "f" + tag, "format")]))
    sites.append((tag + "ex", [s("example", "e" + tag, "example"),
                               s("example_with", ("1 + 1", "2"), "example_with")]))
    sites.append((tag + "inl", [s("inline", True, "inline")]))
    sites.append((tag + "null", [s("nullable", True, "nullable")]))
    if explicit:
        sites.append((tag + "expl", [s("explicit", e, e) for e in
                                     ("string", "integer", "number", "boolean", "any")]))
    return sites


def container_sites(kind, explicit=False):
    me = lambda d: d

    def s(attr, value, label):
        return ("S.%s" % label, setter(me, attr, value))

    sites = [
        ("rename_all", [s("rename_all", "camelCase", "camelCase"),
                        s("rename_all", "SCREAMING-KEBAB-CASE", "SCREAMING-KEBAB")]),
        ("rename", [s("rename", "Renamed", "rename")]),
        ("desc", [s("desc", "dS", "desc")]),
        ("fmt", [s("format", "fS", "format")]),
        ("ex", [s("example", "eS", "example"), s("example_with", ("2 + 2", "4"), "example_with")]),
        ("inl", [s("inline", True, "inline")]),
        ("null", [s("nullable", True, "nullable")]),
        ("style", [s("attr_style", "split", "split"), s("attr_style", "reversed", "reversed")]),
        ("foreign", [s("foreign", ("/// doc", "#[allow(dead_code)]", "#[must_use]"), "foreign"),
                     s("extra_serde", ("bound = \"\"",), "bound")]),
    ]
    if explicit:
        sites.append(("expl", [s("explicit", e, e) for e in
                               ("string", "integer", "number", "boolean", "any")]))
    return sites


def variant_sites(i, style, explicit=True):
    sel = lambda d: d.variants[i]

    def s(attr, value, label):
        return ("V%d.%s" % (i, label), setter(sel, attr, value))

    t = "V%d" % i
    sites = [
        (t + "rename", [s("rename", "ren" + t, "rename")]),
        (t + "skip", [s("skip", "skip", "skip"), s("skip", "skip_serializing", "skip_ser"),
                      s("skip", "skip_deserializing", "skip_de")]),
        (t + "desc", [s("desc", "d" + t, "desc")]),
        (t + "fmt", [s("format", "f" + t, "format")]),
        (t + "ex", [s("example", "e" + t, "example"), s("example_with", ("3 + 3", "6"), "example_with")]),
        (t + "inl", [s("inline", True, "inline")]),
    ]
    if style == "struct":
        sites.append((t + "rall", [s("rename_all", "PascalCase", "PascalCase"),
                                   s("rename_all", "kebab-case", "kebab-case")]))
    return sites


def overridden(d):
    """The user told opg something other than what serde writes: nothing to accept."""
    fs = list(d.fields) + [f for v in d.variants for f in v.fields]
    return bool(d.explicit) or any(f.explicit and f.explicit != "any" for f in fs) \
        or any(f.skip_if for f in fs if d.kind == "tuple")


def valid(d, both=False):
    """Programs serde and opg both document as legal."""
    if d.transparent and sum(1 for f in d.fields if not f.skipped()) != 1:
        return False
    if d.kind == "newtype" and any(f.skip for f in d.fields):
        return False
    fs = list(d.fields) + [f for v in d.variants for f in v.fields]
    for f in fs:
        if f.skip and f.skip_if and not both:
            return False
        if f.example is not None and f.example_with is not None:
            return False
    if d.kind == "enum":
        if d.tagging == "internal" and any(v.style == "tuple" for v in d.variants):
            return False
        if d.tagging == "untagged" and all(v.style == "unit" for v in d.variants):
            return False
        if d.tagging == "internal":
            for v in d.variants:
                if v.style == "newtype" and v.fields[0].explicit:
                    return False
    return True


SHAPES = ["struct", "tuple"] + ["%s.%s" % (a, b) for a in ("external", "internal", "adjacent", "untagged")
                                for b in ("struct", "tuple") if (a, b) != ("internal", "tuple")]
FILL = ("u8", "leaf", "str", "opt_leaf", "inl", "vec_leaf", "color")


def wide(shape, n, fill=FILL):
    """A container of that shape with n members of assorted types."""
    named = shape.endswith("struct")
    fs = [Field(name="f_%d" % i if named else str(i), ty=PAL[fill[i % len(fill)]]) for i in range(n)]
    if "." not in shape:
        return Decl(kind=shape, fields=fs), fs
    mode, style = shape.split(".")
    d = Decl(kind="enum", tagging=mode, variants=[Variant(name="Va", style=style, fields=fs), Variant(name="Vb")])
    return d, fs


def positions(sizes, specials, shapes=SHAPES, fill=FILL):
    """One member with a special attribute, at every position of containers of every
    size; specials: [(label, attributes)].  Yields (label, decl, field)."""
    for shape in shapes:
        for n in sizes:
            if n == 1 and shape.endswith("tuple"):
                continue
            for at in range(n):
                for sl, attrs in specials:
                    if not shape.endswith("struct") and set(attrs) & {"rename", "optional", "skip_if"}:
                        continue
                    d, fs = wide(shape, n, fill)
                    for k, v in attrs.items():
                        setattr(fs[at], k, copy.deepcopy(v))
                    yield "%s of %d, %s at %d" % (shape, n, sl, at), d, fs[at]


def wide_enum(mode, n, styles=("unit", "newtype", "struct", "tuple")):
    vs = []
    for i in range(n):
        st = styles[i % len(styles)]
        if mode == "internal" and st == "tuple":
            st = "struct"
        ty = PAL["leaf" if st == "newtype" and mode == "internal" else FILL[i % len(FILL)]]
        fs = [Field(name="0" if st != "struct" else "x_y", ty=ty)] if st != "unit" else []
        if st == "tuple":
            fs.append(Field(name="1", ty=U8))
        vs.append(Variant(name="V%d" % i, style=st, fields=fs))
    return Decl(kind="enum", tagging=mode, variants=vs)


def variant_positions(sizes, specials, modes=("external", "internal", "adjacent", "untagged"),
                      styles=(("unit", "newtype", "struct", "tuple"), ("newtype",), ("struct",), ("unit",))):
    for mode in modes:
        for st in styles:
            if mode == "untagged" and st == ("unit",):
                continue
            for n in sizes:
                for at in range(n):
                    for sl, attrs in specials:
                        d = wide_enum(mode, n, st)
                        for k, v in attrs.items():
                            setattr(d.variants[at], k, copy.deepcopy(v))
                        yield "%s[%s] of %d, %s at %d" % (mode, ",".join(st), n, sl, at), d, d.variants[at]


class Space:
    """The set of states to explore; identical programs are one state."""

    def __init__(self):
        self.cases = []
        self.seen = {}
        self.transitions = 0

    def add(self, label, t, decls=(), ndev=1, check_values=None, meta=None, prefix="", extra_body="", wrap=None):
        """t: the observed type; decls: declarations of this case, in order."""
        if check_values is None:
            check_values = not any(overridden(d) for d in decls)
        items = prefix + "\n".join(m.render(d, not check_values) for d in decls)
        if wrap:
            items = wrap(items)
        ty = m.rust(t)
        key = (items, ty, extra_body)
        self.transitions += max(1, ndev)
        if key in self.seen:
            return self.seen[key]
        vals = m.values(t) if check_values else []
        body = ["vsupport::observe::<%s>(o);" % ty]
        toggles = (False, True) if any(m.uses_toggle(d) for d in decls) else (False,)
        for tg in toggles:
            if len(toggles) > 1:
                body.append("vsupport::set_skip(%s);" % str(tg).lower())
            for v in vals:
                body.append("vsupport::value::<%s>(o, &{ %s });" % (ty, v))
        if len(toggles) > 1:
            body.append("vsupport::set_skip(false);")
        if extra_body:
            body.append(extra_body)
        c = core.Case(label, items, "\n".join(body), expect=t, edges=max(1, ndev),
                      meta=dict(meta or {}, decls=list(decls),
                                values=[v for _ in toggles for v in vals], type=ty))
        self.cases.append(c)
        self.seen[key] = c
        return c

    def add_decl(self, label, d, ndev=1, both=False, **kw):
        if not valid(d, both):
            return None
        return self.add(label, D(d), [d], ndev, **kw)


def label_fields(fs):
    return ",".join(fs)


# ----------------------------------------------------------------- checking

def strip(x, drop):
    return m.canon(m.project(x, drop)) if drop is not None else m.canon(x)


def diff(exp, act, path=""):
    """First differences between two canonical documents."""
    out = []
    if isinstance(exp, dict) and isinstance(act, dict):
        for k in sorted(set(exp) | set(act)):
            p = path + "/" + k
            if k not in act:
                out.append("%s: missing, expected %s" % (p, js(exp[k])))
            elif k not in exp:
                out.append("%s: unexpected %s" % (p, js(act[k])))
            else:
                out += diff(exp[k], act[k], p)
    elif isinstance(exp, list) and isinstance(act, list) and len(exp) == len(act):
        for i, (a, b) in enumerate(zip(exp, act)):
            out += diff(a, b, "%s[%d]" % (path, i))
    elif exp != act or type(exp) is not type(act):
        out.append("%s: expected %s, got %s" % (path or "/", js(exp), js(act)))
    return out


def js(x):
    s = json.dumps(x, ensure_ascii=False, sort_keys=True)
    return s if len(s) < 160 else s[:157] + "..."


def js_full(x):
    return json.dumps(x, ensure_ascii=False, sort_keys=True)


def known_mixed_unit(t, value, seen=None):
    """The value is the bare name of a unit variant of an externally tagged enum that
    also has data variants (recorded finding), at the top of the document."""
    while t[0] in ("w", "opt"):
        t = t[2] if t[0] == "w" else t[1]
    if t[0] != "d":
        return False
    d = t[1]
    if d.kind != "enum" or d.tagging != "external" or not isinstance(value, str):
        return False
    live = [v for v in d.variants if not v.skipped()]
    return any(v.effective() != "unit" for v in live) and \
        any(v.effective() == "unit" and m.variant_name(v, d) == value for v in live)


def compare(cases, results, drop, keep=None, parts=("ref", "components", "schema", "verify", "type_name"),
            accept=True, classify=None):
    """Violations of `observed == reference` and of `every emitted value is accepted`."""
    out = []
    outcomes = set()
    checked_values = 0
    for c in cases:
        r = results.get(c.id)
        if r is None or "panic" in r or "abort" in r:
            continue
        exp = m.expected(c.expect)
        e, a = {}, {}
        for k in parts:
            ev, av = exp[k], r.get(k)
            if k == "components":
                # named things at the top level
                ev = {n: filt(x, drop, keep) for n, x in ev.items()}
                av = {n: filt(x, drop, keep) for n, x in av.items()}
            elif k in ("ref", "schema"):
                ev, av = filt(ev, drop, keep), filt(av, drop, keep)
            e[k], a[k] = ev, av
        outcomes.add(json.dumps(a["schema"] if "schema" in a else a, sort_keys=True))
        ds = [] if c.meta.get("known") else diff(e, a)
        if ds:
            out.append(core.Violation(c.name, "%s: %s" % (c.name, ds[0]),
                                      {"differences": ds[:20], "observed": {k: r.get(k) for k in parts}}, c))
            continue
        if accept:
            for expr, v in zip(c.meta["values"], r.get("values", [])):
                if "ok" not in v:
                    continue
                checked_values += 1
                for part, sch, comps in (("schema", r["schema"], r["components"]),
                                         ("mention", r["ref"], r["components"])):
                    try:
                        good = validate.accepts(sch, v["ok"], comps_of(r, comps, part))
                    except validate.Dangling as ex:
                        out.append(core.Violation(c.name, "%s: dangling %s" % (c.name, ex),
                                                  {"observed": r}, c))
                        good = True
                    if not good:
                        known = "ext-mixed-unit" if known_mixed_unit(c.expect, v["ok"]) else None
                        if known is None and classify:
                            known = classify(c, v["ok"])
                        out.append(core.Violation(
                            c.name + "=" + expr,
                            "%s: the %s rejects %s, which serde writes for %s"
                            % (c.name, part, js(v["ok"]), expr),
                            {"value": v["ok"], "expr": expr, "schema": sch,
                             "components": r["components"]}, c, known))
                        break
    return out, len(outcomes), checked_values


MENTIONS = [(inline, nullable, text) for inline in (False, True) for nullable in (None, True, False) for text in (False, True)]


def compare_mentions(cases, results, drop=()):
    """The same for the mentions `vsupport::mentions` makes."""
    out = []
    for c in cases:
        r = results.get(c.id)
        if r is None or "mentions" not in r:
            continue
        for (inline, nullable, text), got in zip(MENTIONS, r["mentions"]):
            cx = m.Cx()
            p = m.Params(desc="dd", format="ff", example="ee") if text else m.Params()
            p.nullable = nullable
            ref = m.mention(c.expect, inline, p, cx)
            e = {"ref": filt(ref, drop, None), "components": {n: filt(x, drop, None) for n, x in cx.components.items()}}
            a = {"ref": filt(got["ref"], drop, None), "components": {n: filt(x, drop, None) for n, x in got["components"].items()}}
            ds = diff(e, a)
            if ds:
                lbl = "%s mentioned%s%s%s" % (c.name, " inline" if inline else "", "" if nullable is None else " nullable=%s" % nullable, " annotated" if text else "")
                out.append(core.Violation(lbl, "%s: %s" % (lbl, ds[0]), {"differences": ds[:20], "observed": got}, c))
                break
    return out


def comps_of(r, comps, part):
    # the schema of a type refers to components registered while describing it
    return r.get("own_components", comps) if part == "schema" else comps


def filt(x, drop, keep):
    if keep is not None:
        x = m.only(x, keep)
    if drop is not None:
        x = m.project(x, drop)
    return m.canon(x)


def samples(cases, results, n=3):
    out = []
    step = max(1, len(cases) // n)
    for c in cases[::step][:n]:
        r = results.get(c.id, {})
        out.append({"input": c.name, "program": c.items, "schema": r.get("schema"),
                    "values": [v.get("ok", v.get("err")) for v in r.get("values", [])][:4]})
    return out


def run_space(prop, tier, t0, space, bounds, drop=m.ANNOT, keep=None, accept=True, extra=None,
              assumptions=(), classify=None, deps=("serde_repr",), parts=("ref", "components", "schema", "verify", "type_name"),
              **kw):
    """Build, run, compare, report."""
    results, violations = core.build_and_run(prop, space.cases, prelude=PRELUDE, deps=deps, **kw)
    if results:
        vs, outcomes, nvals = compare(space.cases, results, drop, keep, parts, accept, classify)
        violations += vs
        if extra:
            violations += extra(space.cases, results)
    else:
        outcomes = nvals = 0
    cov = {
        "states": len(space.cases),
        "transitions": space.transitions,
        "traces_validated_against_impl": len(results),
        "values_validated": nvals,
        "distinct_outcomes": outcomes,
        "bounds": bounds,
        "exhaustive": True,
        "samples": samples(space.cases, results),
    }
    return core.finish(prop, tier, t0, cov, violations, list(assumptions))
