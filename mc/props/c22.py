"""Generic types can be described with no superfluous requirements."""
import itertools

import core
import derive as g
import model as m
from derive import LEAF, PAL
from model import A, D, Decl, Field, M, NULL, O, P, STR, TUP, U8, V, Variant, W
from props.c07 import KINDS, container

EXTRA = """
pub use std::marker::PhantomData;
pub trait Tr { type Assoc; }
pub struct HasU8; impl Tr for HasU8 { type Assoc = u8; }
pub struct HasLeaf; impl Tr for HasLeaf { type Assoc = Leaf; }
pub struct HasOpt; impl Tr for HasOpt { type Assoc = Option<Leaf>; }
pub trait Mark {} impl<T: ?Sized> Mark for T {}
pub struct NoAnything;
pub trait Tr2 { type A; type B; }
pub struct Na; impl Tr2 for Na { type A = u8; type B = Leaf; }
pub struct Nb; impl Tr2 for Nb { type A = Option<Leaf>; type B = Vec<u16>; }
#[derive(serde::Serialize, OpgModel)] #[opg(inline)] pub struct Fa { pub fa: u8 } impl Tr2 for Fa { type A = u8; type B = Leaf; }
#[derive(serde::Serialize, OpgModel)] pub struct Fb(bool); impl Tr2 for Fb { type A = Option<Leaf>; type B = Vec<u16>; }
#[derive(serde::Serialize, OpgModel)] pub struct Wrap<T> { pub w: T }
#[derive(serde::Serialize, OpgModel)] #[opg(inline)] pub struct WrapIn<T> { pub w: T }
#[derive(serde::Serialize, OpgModel)] pub struct WrapNt<T>(pub T);
#[derive(serde::Serialize, OpgModel)] pub enum WrapEn<T> { N(T), S { s: T } }
"""

NONE = ("raw", "NoModel", None, ["NoModel"])
NOTHING = ("raw", "NoAnything", None, ["NoAnything"])
PHANTOM_VALUE = ["std::marker::PhantomData"]


def hole(name):
    return ("raw", name, None, [])


def phantom(inner):
    return ("raw", "PhantomData<%s>" % inner, NULL, PHANTOM_VALUE)


def wrap(name, t):
    if name == "WrapEn":
        return D(Decl(name=name, kind="enum", variants=[Variant(name="N", style="newtype", fields=[Field(name="0", ty=t)]), Variant(name="S", style="struct", fields=[Field(name="s", ty=t)])]))
    if name == "WrapNt":
        return D(Decl(name=name, kind="newtype", fields=[Field(name="0", ty=t)]))
    return D(Decl(name=name, kind="struct", inline=name == "WrapIn", fields=[Field(name="w", ty=t)]))


class Gen:
    """A use of a generic declaration as a type: rendered by name, expected by structure."""


def generic(name):
    return lambda t: ("raw", "%s<%s>" % (name, m.rust(t)), None, []) if t[0] == "raw" and t[2] is None and t[1] not in ("NoModel", "NoAnything") else wrap(name, t)


# ways of using a parameter in a member
USES = [("T", lambda t: t), ("Option", O), ("Vec", V), ("Box", lambda t: W("Box", t)), ("map", M), ("tuple", lambda t: TUP(t, U8)), ("array", lambda t: A(2, t)),
        ("Option<Box>", lambda t: O(W("Box", t))), ("Vec<Option>", lambda t: V(O(t))), ("Rc", lambda t: W("Rc", t)), ("map<Vec>", lambda t: M(V(t))),
        ("Wrap", generic("Wrap")), ("WrapIn", generic("WrapIn")), ("WrapNt", generic("WrapNt")), ("WrapEn", generic("WrapEn")), ("Option<Wrap>", lambda t: O(generic("Wrap")(t))),
        ("Vec<WrapIn>", lambda t: V(generic("WrapIn")(t)))]
ARGS = ["u8", "str", "leaf", "opt_leaf", "vec_leaf", "opt_u8", "map_u8", "inl", "color", "unt", "nt", "leafd", "unit", "tup"]
FORMS = [
    # label, generics, where, instantiation (% the argument)
    ("T", "<T>", "", "<%s>"), ("T:", "<T: Mark>", "", "<%s>"), ("where T", "<T>", "where T: Mark", "<%s>"), ("T=u8", "<T = u8>", "", "<%s>"),
    ("T: Mark=u8", "<T: Mark = u8>", "where T: Mark,", "<%s>"), ("T,", "<T,>", "", "<%s>"), ("where Vec<T>", "<T>", "where Vec<T>: Mark", "<%s>"),
    ("T: +", "<T: Mark + Sized>", "where Option<T>: Mark, T: Mark", "<%s>"), ("hr", "<T>", "where for<'x> &'x T: Mark", "<%s>"), ("T: 'static", "<T: 'static>", "", "<%s>"),
    ("where empty", "<T>", "where", "<%s>"),
]


def declare(kind, t, generics, where, **kw):
    d = container(kind, t, **kw)
    d.generics, d.where = generics, where
    return d


class Sp:
    def __init__(self):
        self.cases, self.seen, self.transitions = [], set(), 0

    def add(self, label, decls, ty, expect, edges=1, values=True):
        """decls: rendered declarations; ty: the observed Rust type; expect: its structure"""
        items = "\n".join(d if isinstance(d, str) else m.render(d) for d in decls)
        self.transitions += edges
        if (items, ty) in self.seen:
            return
        self.seen.add((items, ty))
        vals = m.values(expect) if values else []
        body = "vsupport::observe::<%s>(o);\n" % ty + "\n".join("vsupport::value::<%s>(o, &{ %s });" % (ty, v) for v in vals)
        self.cases.append(core.Case(label, items, body, expect=expect, meta={"decls": [], "values": vals}))


def space(tier):
    deep = tier == "thorough"
    sp = Sp()

    def one(label, kind, use, form, arg, edges=3, **kw):
        _, gen, where, inst = form
        t = declare(kind, use(hole("T")), gen, where, **kw)
        e = container(kind, use(arg), **kw)
        if not g.valid(e):
            return
        sp.add(label, [t], "Subj" + inst % m.rust(arg), D(e), edges)

    for kind in KINDS:
        for un, use in USES:
            for an in ARGS if deep else ARGS[:6]:
                one("%s<%s %s>" % (kind, un, an), kind, use, FORMS[0], PAL[an])
        for form in FORMS[1:]:
            for un, use in USES if deep else USES[:3] + USES[11:13]:
                for an in ("u8", "leaf"):
                    one("%s<%s %s> %s" % (kind, un, an, form[0]), kind, use, form, PAL[an], 4)
        # the default is the argument
        for un, use in USES[:3]:
            t = declare(kind, use(hole("T")), "<T = u8>", "")
            sp.add("%s<%s> default" % (kind, un), [t], "Subj", D(container(kind, use(U8))), 3)
        # parameter names
        for name in ("U", "M", "K", "S", "Model", "E", "Item", "Components", "Cow", "T1", "Params"):
            t = declare(kind, hole(name), "<%s>" % name, "")
            sp.add("%s param %s" % (kind, name), [t], "Subj<u8>", D(container(kind, U8)), 2)
        # lifetimes
        for gen, where in (("<'a, T>", ""), ("<'a, T: 'a>", ""), ("<'a, T>", "where T: 'a"), ("<'a, T: Mark = u8>", "")):
            for un, use in (("&", lambda t: W("refa", t)), ("Option<&>", lambda t: O(W("refa", t))), ("Vec<&>", lambda t: V(W("refa", t))), ("Box<&>", lambda t: W("Box", W("refa", t)))):
                for an in ("u8", "leaf", "opt_leaf"):
                    t = declare(kind, use(hole("T")), gen, where)
                    sp.add("%s %s<%s %s>" % (kind, gen + where, un, an), [t], "Subj<'static, %s>" % m.rust(PAL[an]), D(container(kind, use(PAL[an]))), 3)
        for ty, inst, gen in ((W("refa", P("str")), "<'static>", "<'a>"), (W("refa", D(LEAF)), "<'static, 'static>", "<'a, 'b: 'a>"), (W("refa", V(U8, "slice")), "<'static>", "<'a>")):
            d = declare(kind, ty, gen, "")
            if gen == "<'a, 'b: 'a>":
                d.where = "where 'b: 'a"
                extra = Field(name="0" if kind in ("newtype",) else "zz", ty=("raw", "&'b str", {"type": "string"}, ["\"s\""]))
                if kind == "struct":
                    d.fields.append(extra)
                else:
                    continue
                e = container(kind, ty)
                e.fields.append(extra)
            else:
                e = container(kind, ty)
            sp.add("%s %s %s" % (kind, gen, m.rust(ty)), [d], "Subj" + inst, D(e), 2, values=ty[2] != P("str") and ty[2][0] != "seq")
        # unsized arguments behind a pointer
        for un, use in (("Box", lambda t: W("Box", t)), ("Rc", lambda t: W("Rc", t)), ("Option<Box>", lambda t: O(W("Box", t)))):
            for arg in (P("str"), V(U8, "slice"), V(D(LEAF), "slice"), U8):
                t = declare(kind, use(hole("T")), "<T: ?Sized>", "")
                sp.add("%s ?Sized %s<%s>" % (kind, un, m.rust(arg)), [t], "Subj<%s>" % m.rust(arg), D(container(kind, use(arg))), 3, values=False)
        # constants
        for gen, inst, where in (("<const N: usize>", "<2>", ""), ("<const N: usize = 2>", "", ""), ("<const N: usize = 2>", "<2>", "where [u8; N]: Mark")):
            for un, use in (("[]", lambda t: t), ("Option<[]>", O), ("Vec<[]>", V)):
                t = declare(kind, use(hole("[u8; N]")), gen, where)
                # serde has no arrays of every length
                sp.add("%s %s %s%s" % (kind, gen, un, inst), [m.render(t, True)], "Subj" + inst, D(container(kind, use(A(2, U8)))), 2, values=False)
        t = declare(kind, hole("[T; N]"), "<T, const N: usize>", "")
        sp.add("%s [T; N]" % kind, [m.render(t, True)], "Subj<Leaf, 3>", D(container(kind, A(3, D(LEAF)))), 2, values=False)
        # associated types: the parameter itself needs no schema
        for gen, where in (("<T: Tr>", ""), ("<T>", "where T: Tr"), ("<T: Tr>", "where T::Assoc: Mark")):
            for has, arg in (("HasU8", U8), ("HasLeaf", D(LEAF)), ("HasOpt", O(D(LEAF)))):
                t = declare(kind, hole("T::Assoc"), gen, where)
                sp.add("%s %s%s T::Assoc=%s" % (kind, gen, where, has), [t], "Subj<%s>" % has, D(container(kind, arg)), 2)
        for has, arg in (("HasU8", U8), ("HasLeaf", D(LEAF))):
            for un, use, src in (("Vec", V, "Vec<T::Assoc>"), ("Option", O, "Option<T::Assoc>")):
                t = declare(kind, hole(src), "<T: Tr>", "where T::Assoc: serde::Serialize + OpgModel")
                sp.add("%s %s=%s" % (kind, src, has), [t], "Subj<%s>" % has, D(container(kind, use(arg))), 3)
            t = declare(kind, hole("<T as Tr>::Assoc"), "<T: Tr + serde::Serialize + OpgModel>", "where T::Assoc: serde::Serialize + OpgModel")
            if has == "HasU8":
                impl = "#[derive(serde::Serialize, OpgModel)] pub struct Full { q: u8 } impl Tr for Full { type Assoc = u8; }"
                sp.add("%s qself" % kind, [impl, t], "Subj<Full>", D(container(kind, U8)), 3)

    # two parameters
    for kind in ("struct", "tuple", "external.tuple", "external.struct", "internal.struct", "adjacent.tuple", "untagged.struct"):
        for gen in ("<T, U>", "<T, U = T>", "<T, U: Mark>", "<U, T>"):
            for (n1, u1), (n2, u2) in itertools.product(USES[:3], repeat=2):
                for a1, a2 in itertools.product(("u8", "leaf", "opt_leaf"), repeat=2):
                    def both(x, y):
                        d = container(kind, u1(x))
                        f = Field(name="b" if kind.endswith("struct") else "1", ty=u2(y))
                        fs = d.fields if d.kind != "enum" else d.variants[0].fields
                        fs[1:] = [f]
                        return d
                    t = both(hole("T"), hole("U"))
                    t.generics = gen
                    args = [m.rust(PAL[a1]), m.rust(PAL[a2])]
                    if gen == "<U, T>":
                        args.reverse()
                    sp.add("%s %s %s<%s> %s<%s>" % (kind, gen, n1, a1, n2, a2), [t], "Subj<%s>" % ", ".join(args), D(both(PAL[a1], PAL[a2])), 4)

    # members which are not serialized need nothing
    for kind in ("struct", "tuple", "external.tuple", "external.struct", "internal.struct", "adjacent.tuple", "adjacent.struct", "untagged.tuple", "untagged.struct"):
        for gen, where in (("<T>", ""), ("<T: Mark>", ""), ("<T>", "where T: Mark"), ("<T = u8>", "")):
            for an, arg in (("NoModel", NONE), ("NoAnything", NOTHING), ("leaf", D(LEAF))):
                for un, use in USES[:4] + USES[5:6] + USES[7:9]:
                    for skip in ("skip", "skip_serializing"):
                        def build(x):
                            d = container(kind, U8)
                            fs = d.fields if d.kind != "enum" else d.variants[0].fields
                            fs[1:] = [Field(name="b" if kind.endswith("struct") else "1", ty=use(x), skip=skip)]
                            return d
                        t = build(hole("T"))
                        t.generics, t.where = gen, where
                        if kind.endswith("tuple") and use is USES[5][1]:
                            continue
                        sp.add("%s %s%s %s %s<%s>" % (kind, gen, where, skip, un, an), [t], "Subj<%s>" % m.rust(arg), D(build(arg)), 3, values=an == "leaf")
                def ph(x):
                    d = container(kind, U8)
                    fs = d.fields if d.kind != "enum" else d.variants[0].fields
                    fs[1:] = [Field(name="b" if kind.endswith("struct") else "1", ty=phantom(x))]
                    return d
                t = ph("T")
                t.generics, t.where = gen, where
                sp.add("%s %s%s phantom<%s>" % (kind, gen, where, an), [t], "Subj<%s>" % m.rust(arg), D(ph(m.rust(arg))), 3)
                t2 = ph("(T, Box<T>)")
                t2.generics, t2.where = gen, where
                sp.add("%s %s%s phantom2<%s>" % (kind, gen, where, an), [t2], "Subj<%s>" % m.rust(arg), D(ph("x")), 3)
    for arg in (NONE, NOTHING, D(LEAF)):
        # transparent structs around a phantom or skipped member
        for order in (0, 1):
            for form in ("phantom", "skip", "skip phantom"):
                def tr(x):
                    extra = Field(name="p", ty=phantom(x) if "phantom" in form else hole(x), skip="skip" if "skip" in form else None)
                    if "phantom" not in form:
                        extra.ty = ("raw", x, None, [])
                    fs = [Field(name="v", ty=D(LEAF)), extra]
                    return Decl(name="Subj", kind="struct", transparent=True, fields=fs if order == 0 else fs[::-1], generics="<T>")
                e = Decl(name="Subj", kind="struct", transparent=True, fields=[Field(name="v", ty=D(LEAF))])
                sp.add("transparent %s %d %s" % (form, order, m.rust(arg)), [tr("T")], "Subj<%s>" % m.rust(arg), D(e), 2, values=False)
        # skipped variants
        for mode in ("external", "internal", "adjacent", "untagged"):
            for style in ("newtype", "tuple", "struct"):
                for skip in ("skip", "skip_serializing"):
                    if mode == "internal" and style == "tuple":
                        continue
                    def sv(x):
                        fs = [Field(name="z" if style == "struct" else "0", ty=x)] + ([Field(name="1", ty=x)] if style == "tuple" else [])
                        return Decl(name="Subj", kind="enum", tagging=mode, variants=[Variant(name="A", style="newtype", fields=[Field(name="0", ty=D(LEAF))]),
                                                                                      Variant(name="Gone", style=style, skip=skip, fields=fs), Variant(name="B")])
                    t = sv(hole("T"))
                    t.generics = "<T>"
                    sp.add("skipped variant %s %s %s %s" % (mode, style, skip, m.rust(arg)), [t], "Subj<%s>" % m.rust(arg), D(sv(arg)), 2)
    # one used, one unused parameter
    for arg in (U8, D(LEAF)):
        for form in ("phantom", "skip"):
            for gen in ("<T, U>", "<U, T>"):
                def tu(x, y):
                    return Decl(name="Subj", kind="struct", fields=[Field(name="a", ty=x), Field(name="b", ty=phantom(y) if form == "phantom" else ("raw", y, None, []), skip="skip" if form == "skip" else None)])
                t = tu(hole("T"), "U")
                t.generics = gen
                args = [m.rust(arg), "NoAnything"]
                sp.add("used and unused %s %s" % (form, gen), [t], "Subj<%s>" % ", ".join(args if gen == "<T, U>" else args[::-1]), D(tu(arg, "NoAnything")), 3, values=False)

    more(sp, deep)
    # recursive generic types
    for an in ("u8", "leaf", "opt_leaf", "color"):
        for un, use in (("Option<Box>", lambda t: O(W("Box", t))), ("Vec", V), ("map", M)):
            d = Decl(name="Node", kind="struct", fields=[Field(name="v", ty=PAL[an])], shared=True)
            d.fields.append(Field(name="next", ty=use(D(d))))
            src = Decl(name="Node", kind="struct", generics="<T>", fields=[Field(name="v", ty=hole("T")), Field(name="next", ty=use(hole("Node<T>")))])
            sp.add("recursive %s %s" % (un, an), [src], "Node<%s>" % m.rust(PAL[an]), D(d), 3, values=False)
    # generic types in one registry, where instantiations are inlined
    for a, b in itertools.product(("u8", "leaf", "opt_leaf", "vec_leaf"), repeat=2):
        src = Decl(name="Pair", kind="struct", fields=[Field(name="a", ty=("raw", "WrapIn<%s>" % m.rust(PAL[a]), None, [])), Field(name="b", ty=("raw", "WrapIn<%s>" % m.rust(PAL[b]), None, []))])
        exp = Decl(name="Pair", kind="struct", fields=[Field(name="a", ty=wrap("WrapIn", PAL[a])), Field(name="b", ty=wrap("WrapIn", PAL[b]))])
        sp.add("pair %s %s" % (a, b), [src], "Pair", D(exp), 3)
        src = Decl(name="Pair", kind="struct", fields=[Field(name="a", ty=("raw", "Wrap<%s>" % m.rust(PAL[a]), None, []), inline=True), Field(name="b", ty=("raw", "Wrap<%s>" % m.rust(PAL[b]), None, []), inline=True)])
        exp = Decl(name="Pair", kind="struct", fields=[Field(name="a", ty=wrap("Wrap", PAL[a]), inline=True), Field(name="b", ty=wrap("Wrap", PAL[b]), inline=True)])
        sp.add("pair inline %s %s" % (a, b), [src], "Pair", D(exp), 3)
    # attributes of generic containers and members
    for kind in KINDS:
        for label, setattrs in (("inline", dict(inline=True)), ("nullable", dict(nullable=True)), ("desc", dict(desc="dd")), ("camel", dict(rename_all="camelCase"))):
            if label == "nullable" and "." in kind and False:
                continue
            for an in ("u8", "leaf", "opt_leaf"):
                t, e = declare(kind, hole("T"), "<T>", ""), container(kind, PAL[an])
                for k, v in setattrs.items():
                    setattr(t, k, v)
                    setattr(e, k, v)
                sp.add("%s container %s %s" % (kind, label, an), [t], "Subj<%s>" % m.rust(PAL[an]), D(e), 3, values=label != "nullable")
        for label, kw in (("inline", dict(inline=True)), ("string", dict(explicit="string")), ("any", dict(explicit="any")), ("nullable", dict(nullable=True)), ("desc", dict(desc="fd"))):
            if kind == "internal.newtype" and label in ("string", "any"):
                continue
            for an in ("leaf", "u8"):
                t, e = declare(kind, hole("T"), "<T>", "", **kw), container(kind, PAL[an], **kw)
                sp.add("%s member %s %s" % (kind, label, an), [t], "Subj<%s>" % m.rust(PAL[an]), D(e), 3, values=False)
    return sp


def more(sp, deep):
    """Phantom members in every spelling, many parameters, several uses of one."""
    fields_of = lambda d: d.fields if d.kind != "enum" else d.variants[0].fields
    kinds = ("struct", "tuple", "external.tuple", "external.struct", "internal.struct", "adjacent.tuple", "adjacent.struct", "untagged.tuple", "untagged.struct")

    def second(kind, ty, **kw):
        d = container(kind, U8)
        fields_of(d)[1:] = [Field(name="b" if kind.endswith("struct") else "1", ty=ty, **kw)]
        return d

    # phantom members, however they are written
    paths = ("PhantomData", "std::marker::PhantomData", "core::marker::PhantomData", "::std::marker::PhantomData", "self::PhantomData", "crate::prelude::PhantomData", "marker::PhantomData")
    insides = ("T", "(T,)", "Vec<T>", "Option<Box<T>>", "fn() -> T", "fn(T)", "*const T", "&'static T", "[T; 3]", "dyn Fn(T) -> T", "PhantomData<T>", "Wrap<T>", "(u8, T, T)")
    for kind in kinds:
        for path in paths:
            for inside in insides if path == "PhantomData" or deep else insides[:3]:
                for un, use in (("", lambda t: t), ("Vec", V), ("Option", O), ("Box", lambda t: W("Box", t)), ("map", M), ("array", lambda t: A(2, t))):
                    if kind not in ("struct", "external.tuple", "untagged.struct") and un and not deep:
                        continue
                    text = "%s<%s>" % (path, inside)
                    ty = ("raw", text, NULL, ["std::marker::PhantomData"])
                    t, e = second(kind, use(ty)), second(kind, use(ty))
                    t.generics = "<T: 'static>"
                    pre = "use std::marker;" if path.startswith("marker") else ""
                    # serde wants the values of what it does not recognize
                    known = un == ""
                    sp.add("%s phantom %s %s" % (kind, un, text), [pre, m.render(t, not known)], "Subj<NoAnything>", D(e), 3, values=False)
    # a parameter used in several members: required when any of them is serialized
    for kind in kinds:
        for hidden in ("skip", "skip_serializing", "phantom"):
            for order in (0, 1):
                for an in ("u8", "leaf", "opt_leaf"):
                    def build(x, generics=""):
                        d = container(kind, U8)
                        named = kind.endswith("struct")
                        a = Field(name="b" if named else "1", ty=("raw", "PhantomData<%s>" % m.rust(x), NULL, PHANTOM_VALUE) if hidden == "phantom" else x, skip=None if hidden == "phantom" else hidden)
                        b = Field(name="c" if named else "2", ty=V(x))
                        fields_of(d)[1:] = [a, b] if order == 0 else [b, a]
                        d.generics = generics
                        return d
                    sp.add("%s %s and used, order %d %s" % (kind, hidden, order, an), [build(hole("T"), "<T>")], "Subj<%s>" % m.rust(PAL[an]), D(build(PAL[an])), 3, values=False)
    for mode in ("external", "adjacent", "untagged", "internal"):
        for skips in itertools.product((None, "skip", "skip_serializing", "skip_deserializing"), repeat=2):
            for order in ("TU", "UT"):
                vs = [Variant(name="A", style="struct", skip=skips[0], fields=[Field(name="x", ty=hole("T"))]), Variant(name="B", style="struct", skip=skips[1], fields=[Field(name="y", ty=hole("U"))]),
                      Variant(name="C", style="struct", fields=[Field(name="z", ty=U8)])]
                args = {"T": NOTHING if vs[0].skipped() else D(LEAF), "U": NOTHING if vs[1].skipped() else U8}
                e = Decl(name="Subj", kind="enum", tagging=mode, variants=[Variant(name=v.name, style="struct", skip=v.skip, fields=[Field(name=f.name, ty=args.get(f.ty[1], f.ty)) for f in v.fields]) for v in vs])
                t = Decl(name="Subj", kind="enum", tagging=mode, variants=vs, generics="<%s>" % ", ".join(order))
                sp.add("%s variants %s %s" % (mode, skips, order), [m.render(t, True)], "Subj<%s>" % ", ".join(m.rust(args[x]) for x in order), D(e), 3, values=False)
    # many parameters, one of them needed or one of them not
    letters = "ABCDEFGHIJ"
    for n in range(2, 11 if deep else 7):
        for at in range(n):
            for lone in ("used", "unused"):
                for hidden in ("phantom", "skip"):
                    used = [(i == at) == (lone == "used") for i in range(n)]
                    fs, es = [], []
                    for i in range(n):
                        x = letters[i]
                        if used[i]:
                            fs.append(Field(name="f%d" % i, ty=O(hole(x)) if i % 2 else hole(x)))
                            es.append(Field(name="f%d" % i, ty=O(D(LEAF)) if i % 2 else D(LEAF)))
                        elif hidden == "phantom":
                            fs.append(Field(name="f%d" % i, ty=phantom(x)))
                            es.append(Field(name="f%d" % i, ty=phantom(x)))
                        else:
                            fs.append(Field(name="f%d" % i, ty=hole(x), skip="skip"))
                            es.append(Field(name="f%d" % i, ty=NOTHING, skip="skip"))
                    args = ", ".join("Leaf" if u else "NoAnything" for u in used)
                    t = Decl(name="Subj", kind="struct", fields=fs, generics="<%s>" % ", ".join(letters[:n]))
                    sp.add("%d parameters, %s at %d, %s" % (n, lone, at, hidden), [m.render(t, True)], "Subj<%s>" % args, D(Decl(name="Subj", kind="struct", fields=es)), 3, values=False)
    # parameters whose names occur elsewhere
    pre = "pub mod inner { use crate::prelude::*; #[derive(serde::Serialize, opg::OpgModel)] #[opg(inline)] pub struct T { pub q: u8 } pub mod T2 { pub type T = u8; } }"
    innert = D(Decl(name="T", inline=True, fields=[Field(name="q", ty=U8)]))
    for kind in kinds:
        for text, ty in (("inner::T", innert), ("Vec<inner::T>", V(innert)), ("self::inner::T2::T", U8), ("Option<inner::T2::T>", O(U8))):
            for skip in ("skip", "phantom"):
                def build(own, x, generics=""):
                    d = container(kind, own)
                    fields_of(d)[1:] = [Field(name="b" if kind.endswith("struct") else "1", ty=x, skip="skip" if skip == "skip" else None)]
                    d.generics = generics
                    return d
                t = build(hole(text), hole("T") if skip == "skip" else phantom("T"), "<T>")
                e = build(ty, NOTHING if skip == "skip" else phantom("T"))
                sp.add("%s %s beside %s" % (kind, text, skip), [pre, m.render(t, True)], "Subj<NoAnything>", D(e), 3, values=False)
    # every sequence of uses of two parameters and of their associated types
    fa = D(Decl(name="Fa", inline=True, fields=[Field(name="fa", ty=U8)]))
    fb = D(Decl(name="Fb", kind="newtype", fields=[Field(name="0", ty=P("bool"))]))
    atoms = {"T": fa, "U": fb, "T::A": U8, "T::B": D(LEAF), "U::A": O(D(LEAF)), "U::B": V(P("u16")), "Vec<T>": V(fa), "Box<U>": W("Box", fb), "PhantomData<T>": phantom("T"), "-T": None, "-U::B": None}
    for n in range(1, 5 if deep else 4):
        for seq in itertools.product(atoms, repeat=n):
            for kind in ("struct", "external.struct", "untagged.tuple", "variants") if n < 3 or deep else ("struct",):
                direct = [x for x in seq if x[0] != "-" and "Phantom" not in x and "::" not in x]
                args = ["Fa" if any("T" in x for x in direct) else "Na", "Fb" if any("U" in x for x in direct) else "Nb"]
                def build(hidden_ty, pick, generics=""):
                    fs = [Field(name="f%d" % i if kind != "untagged.tuple" else str(i), ty=hidden_ty(x[1:]) if x[0] == "-" else pick(x), skip="skip" if x[0] == "-" else None) for i, x in enumerate(seq)]
                    last = Field(name="p" if kind != "untagged.tuple" else str(n), ty=phantom("(T, U)"))
                    if kind == "struct":
                        return Decl(name="Subj", fields=fs + [last], generics=generics)
                    if kind == "variants":
                        return Decl(name="Subj", kind="enum", variants=[Variant(name="V%d" % i, style="struct", fields=[f]) for i, f in enumerate(fs + [last])], generics=generics)
                    return Decl(name="Subj", kind="enum", tagging=kind.split(".")[0], variants=[Variant(name="Va", style=kind.split(".")[1], fields=fs + [last])], generics=generics)
                t = build(hole, hole, "<T: Tr2, U: Tr2>")
                e = build(lambda x: NOTHING, atoms.get)
                sp.add("%s uses %s" % (kind, " ".join(seq)), [m.render(t, True)], "Subj<%s>" % ", ".join(args), D(e), n, values=False)
    # the parameter below every constructor, and through macros, parentheses and aliases
    for kind in KINDS:
        for cn, c in g.contexts(deep):
            t = declare(kind, c(hole("T")), "<T>" if "ref" not in cn and "mut" not in cn else "<T: 'static>", "")
            sp.add("%s<%s T>" % (kind, cn), [m.render(t, True)], "Subj<Leaf>", D(container(kind, c(D(LEAF)))), 2, values=False)
        for label, text, use, pre, wrap in (("parens", "(T)", lambda t: t, "", None), ("parens 2", "(Vec<(T)>)", V, "", None),
                                            ("alias", "Maybe<T>", O, "pub type Maybe<X> = Option<X>;", None), ("alias 2", "List<Maybe<T>>", lambda t: V(O(t)), "pub type Maybe<X> = Option<X>; pub type List<X> = Vec<X>;", None),
                                            ("group", "$t", lambda t: t, "", "T"), ("group 2", "$t", V, "", "Vec<T>"), ("group 3", "Option<$t>", O, "", "T"), ("group 4", "Vec<$t>", lambda t: V(O(t)), "", "Option<T>")):
            t = declare(kind, hole(text), "<T>", "")
            src = m.render(t, True)
            if wrap:
                src = "macro_rules! declare { ($t:ty) => {\n%s\n} }\ndeclare!(%s);" % (src, wrap)
            sp.add("%s spelled %s" % (kind, label), [pre, src], "Subj<Leaf>", D(container(kind, use(D(LEAF)))), 3, values=False)
        for label, text in (("group", "T::Assoc"),):
            t = declare(kind, hole("$t"), "<T: Tr>", "")
            src = "macro_rules! declare { ($t:ty) => {\n%s\n} }\ndeclare!(%s);" % (m.render(t, True), text)
            sp.add("%s associated type in a group" % kind, [src], "Subj<HasLeaf>", D(container(kind, D(LEAF))), 3, values=False)


def check(tier, t0):
    sp = space(tier)
    results, violations = core.build_and_run("C22", sp.cases, prelude=g.PRELUDE + EXTRA, deps=("serde_repr",))
    outcomes = nvals = 0
    if results:
        vs, outcomes, nvals = g.compare(sp.cases, results, None, classify=classify)
        violations += vs
    cov = {"states": len(sp.cases), "transitions": sp.transitions, "traces_validated_against_impl": len(results), "values_validated": nvals, "distinct_outcomes": outcomes,
           "exhaustive": True, "bounds": {"containers": len(KINDS), "parameter forms": len(FORMS), "uses": len(USES), "parameters": 2}, "samples": g.samples(sp.cases, results)}
    return core.finish("C22", tier, t0, cov, violations,
                       ["a generic type is described in one instantiation per registry unless it is inlined (recorded under C07)",
                        "forms serde's own derive needs a manual bound for carry that bound here"])


def classify(c, value):
    return "internal-newtype-unit-content" if c.name.startswith("internal.newtype") and (" unit>" in c.name or " color>" in c.name) else None
