"""Attributes that say nothing about the JSON serde writes change nothing."""
import copy
import itertools

import derive as g
import model as m
from derive import PAL
from model import Decl, Field, O, STR, U8, Variant, W


def variant(style, name, **kw):
    fs = {"unit": [], "newtype": [Field(name="0", ty=PAL["leaf"])],
          "tuple": [Field(name="0", ty=U8), Field(name="1", ty=PAL["opt_leaf"])],
          "struct": [Field(name="some_field", ty=U8), Field(name="other", ty=PAL["opt_leaf"])]}[style]
    return Variant(name=name, style=style, fields=fs, **kw)


def bases():
    """(label, declaration): every kind, bare and with attributes that do matter"""
    out = []
    two = lambda: [Field(name="some_field", ty=U8), Field(name="other", ty=PAL["opt_leaf"])]
    out.append(("struct", Decl(fields=two())))
    rich = two()
    rich[0].skip_if, rich[0].desc = "toggle", "text"
    rich[1].rename, rich[1].nullable = "Ren", True
    out.append(("struct+", Decl(fields=rich, rename_all="camelCase", desc="about")))
    opt = two()
    opt[0].optional, opt[0].format = True, "ff"
    opt[1].skip = "skip_serializing"
    opt.append(Field(name="third_one", ty=PAL["leaf"], inline=True))
    out.append(("struct-", Decl(fields=opt, rename="Named", rename_all="kebab-case", nullable=True)))
    out.append(("tagged", Decl(fields=two(), struct_tag="tg")))
    out.append(("empty", Decl(fields=[])))
    out.append(("single", Decl(fields=two()[:1])))
    out.append(("single?", Decl(fields=two()[1:])))
    out.append(("three", Decl(fields=two() + [Field(name="third_one", ty=PAL["leaf"])])))
    out.append(("triple", Decl(kind="tuple", fields=[Field(name=str(i), ty=t) for i, t in enumerate((U8, STR, PAL["opt_leaf"]))])))
    out.append(("tuple", Decl(kind="tuple", fields=[Field(name="0", ty=U8), Field(name="1", ty=PAL["leaf"])])))
    out.append(("newtype", Decl(kind="newtype", fields=[Field(name="0", ty=PAL["leaf"])])))
    out.append(("newtype+", Decl(kind="newtype", format="ff", desc="about", fields=[Field(name="0", ty=STR)])))
    out.append(("transparent", Decl(transparent=True, fields=[Field(name="a", ty=PAL["leafd"], skip="skip"), Field(name="b", ty=STR)])))
    out.append(("borrowed", Decl(fields=[Field(name="a", ty=W("ref", PAL["leaf"])), Field(name="b", ty=O(W("ref", STR)))])))
    for mode in ("external", "internal", "adjacent", "untagged"):
        one = Variant(name="Only", style="struct", fields=[Field(name="some_field", ty=STR)])
        out.append((mode + "[single]", Decl(kind="enum", tagging=mode, variants=[one])))
    out.append(("borrowed enum", Decl(kind="enum", variants=[Variant(name="A", style="newtype", fields=[Field(name="0", ty=W("ref", PAL["leaf"]))])])))
    for mode in ("external", "internal", "adjacent", "untagged"):
        for styles in (("newtype", "struct"), ("tuple", "unit"), ("unit", "struct"), ("unit", "unit")):
            if mode == "internal" and "tuple" in styles:
                styles = ("struct", "unit")
            if mode == "untagged" and set(styles) == {"unit"}:
                continue
            vs = [variant(s, n) for s, n in zip(styles, ("FirstOne", "Second"))]
            out.append(("%s[%s]" % (mode, ",".join(styles)), Decl(kind="enum", tagging=mode, variants=vs)))
        vs = [variant("newtype", "FirstOne", desc="v0"), variant("struct", "Second", rename="Ren"), variant("struct", "Third", rename_all="UPPERCASE"),
              variant("unit", "Fourth", skip="skip_serializing")]
        vs[1].fields[0].skip_if = "toggle"
        out.append((mode + "+", Decl(kind="enum", tagging=mode, variants=vs, rename_all="snake_case", rename_all_fields="camelCase", desc="about")))
    out.append(("repr", Decl(kind="enum", tagging="repr", variants=[Variant(name="One", disc="3"), Variant(name="Two", disc="4")])))
    return out


# the words of serde and opg, as another derive might use them
WORDS = ['rename = "zz"', 'rename_all = "UPPERCASE"', 'rename(serialize = "zz")', "skip", "skip_serializing", 'skip_serializing_if = "absent"', "default", "flatten",
         'tag = "zz"', 'content = "zz"', "untagged", "transparent", "inline", "nullable", "optional", '"text"', 'format = "zz"', 'example = "zz"', 'example_with = "1"',
         "string", "integer", "number", "boolean", "any", "serde(skip)", "opg(inline)", "repr(u8)"]
TEXTS = ["a-b", "", "a b", "A", "0", "é", "skip", "inline", "type", "f_0", "null"]
SHAPES = ["other", "other()", 'other = "text"', "other[inline]", "other{inline}", "other(1 + 1 => x; @)", "other(opg)", "other(serde)"]
ANYWHERE = ["/// doc", "/** doc */", '#[doc = "text"]', "#[doc(hidden)]", "#[allow(dead_code)]", "#[cfg(all())]", "#[rustfmt::skip]",
            '#[cfg_attr(any(), serde(skip, rename = "zz"))]', '#[cfg_attr(any(), opg("zz", inline, string))]', "#[cfg_attr(all(), allow(unused))]",
            "#[clippy::opg(inline)]", "#[clippy::serde(skip)]", "#[serde()]", "#[opg()]"]
FOREIGN = ["#[other(%s)]" % w for w in WORDS] + ["#[%s]" % s for s in SHAPES] + ANYWHERE


def serde_attrs(d, site, node):
    """serde's attributes for that site which do not concern serialization"""
    return [a for a in _serde_attrs(d, site, node) if allowed(node, a)]


def _serde_attrs(d, site, node):
    if d.kind == "enum" and d.tagging == "repr":
        return []
    if site == "C":
        out = ["deny_unknown_fields", 'bound = ""', 'bound(deserialize = "")', 'bound(serialize = "", deserialize = "")', 'crate = "serde"', 'expecting = "text"',
               'rename(deserialize = "zz")', 'rename_all(deserialize = "UPPERCASE")']
        if d.kind == "enum":
            out.append('rename_all_fields(deserialize = "UPPERCASE")')
        else:
            out += ["default", 'default = "absent"']
        if not d.transparent:
            out += ['from = "u8"', 'try_from = "u8"']
        return out
    if isinstance(node, Variant):
        out = ['alias = "zz"', 'alias = "zz", alias = "yy"', 'rename(deserialize = "zz")', 'deserialize_with = "absent"', 'bound = ""', 'bound(deserialize = "")']
        if node.style == "struct":
            out.append('rename_all(deserialize = "UPPERCASE")')
        if not node.skip:
            out.append("skip_deserializing")
        if node.style == "unit" and d.tagging in ("internal", "adjacent") and node is d.variants[-1]:
            out.append("other")
        if node.style == "newtype" and "&'" in m.rust(node.fields[0].ty):
            out += ["borrow", "borrow = \"'static\""]
        return out
    out = ['deserialize_with = "absent"', 'bound = ""', 'bound(deserialize = "")']
    if "&'" in m.rust(node.ty):
        out += ["borrow", "borrow = \"'static\""]
    if node.name[0].isalpha():
        out += ['alias = "zz"', 'alias = "zz", alias = "yy"', 'rename(deserialize = "zz")', "default", 'default = "absent"']
    elif d.kind == "newtype" or d.kind == "tuple" and node is d.fields[-1]:
        out += ["default", 'default = "absent"']
    if not node.skip and not (d.kind == "newtype" or d.transparent):
        out.append("skip_deserializing")
    return out


def allowed(node, attr):
    """serde takes the plain form of a renaming for both directions"""
    word = attr.split("(")[0]
    return not (word in ("rename", "rename_all", "rename_all_fields") and getattr(node, word, None) is not None)


def foreign_attrs(d, site, node):
    out = [a for a in FOREIGN if not (d.tagging == "repr" and a.startswith("#[serde"))]
    if site == "C":
        out += ["#[must_use]", "#[non_exhaustive]", '#[doc(alias = "zz")]', "#[deprecated]", "#[clippy::cognitive_complexity = \"1\"]"]
        if d.kind != "enum":
            out += ["#[repr(C)]", "#[repr(align(8))]", "#[repr(C, align(16))]"]
            if d.kind == "newtype":
                out.append("#[repr(transparent)]")
        elif d.tagging != "repr":
            # serde writes names unless serde_repr is derived: only fieldless enums with a number type are taken for those
            out.append("#[repr(C)]")
            out.append("#[repr(align(8))]")
    elif isinstance(node, Variant):
        out += ["#[non_exhaustive]", "#[deprecated]"]
        if node.style == "unit":
            out.append("DEFAULT")
    else:
        out.append("#[deprecated]")
    return out


def nodes(d):
    out = [("C", d)]
    for i, v in enumerate(d.variants):
        out.append(("V%d" % i, v))
        out += [("V%dF%d" % (i, j), f) for j, f in enumerate(v.fields)]
    return out + [("F%d" % j, f) for j, f in enumerate(d.fields)]


def put(d, site, attr, how):
    node = dict(nodes(d))[site]
    if attr == "DEFAULT":
        d.derives = list(d.derives) + ["Default"]
        node.foreign = tuple(node.foreign) + ("#[default]",)
    elif how == "joined":
        node.extra_serde = tuple(node.extra_serde) + (attr,)
    elif how == "serde":
        node.foreign = tuple(node.foreign) + ("#[serde(%s)]" % attr,)
    elif how == "comma":
        node.foreign = tuple(node.foreign) + ("#[serde(%s,)]" % attr,)
    else:
        node.foreign = tuple(node.foreign) + (attr,)


def conflict(a, b):
    """serde refuses both on one member"""
    word = lambda x: x.split("=")[0].split("(")[0].strip(" #[")
    if {word(a), word(b)} == {"from", "try_from"}:
        return True
    # `alias` may be repeated, the default of a variant exists once
    return word(a) == word(b) and word(a) not in ("alias", "other", "doc", "///", "allow", "cfg", "cfg_attr", "clippy::opg", "clippy::serde", "serde", "opg", "/** doc */")


def space(tier):
    deep = tier == "thorough"
    sp = g.Space()
    all_bases = bases()
    for bl, base in all_bases:
        base.derives = list(base.derives) + ["vquiet::Other"]
        sp.add_decl(bl, base, 1)
        for style in ("joined", "split", "reversed"):
            for site, node in nodes(base):
                for a in serde_attrs(base, site, node):
                    for how in ("joined", "serde", "comma"):
                        if style == "split" and "," in a and how == "joined" or how == "comma" and style != "joined":
                            continue
                        d = copy.deepcopy(base)
                        d.attr_style = style
                        put(d, site, a, how)
                        sp.add_decl("%s %s %s: %s %s" % (bl, style, site, how, a), d, 1)
                if style != "joined" and not deep:
                    continue
                for a in foreign_attrs(base, site, node):
                    d = copy.deepcopy(base)
                    d.attr_style = style
                    put(d, site, a, "foreign")
                    sp.add_decl("%s %s %s: %s" % (bl, style, site, a), d, 1)
    # the same attributes with other texts
    for bl, base in all_bases:
        for site, node in nodes(base):
            told = {a.split("=")[0].strip() for a in serde_attrs(base, site, node)}
            more = []
            for w in ("rename_all", "rename_all_fields"):
                if w + "(deserialize" in told:
                    more += ['%s(deserialize = "%s")' % (w, rule) for rule in
                             ("lowercase", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE")]
            for text in TEXTS:
                more += ['%s = "%s"%s' % (w, text, ")" if "(" in w else "") for w in ("alias", "rename(deserialize", "expecting") if w in told]
            more += ['%s = "%s"%s' % (w, t, ")" if "(" in w else "") for t in ("some::path", "Other<u8>", "(u8, u8)") for w in ("from", "try_from") if w in told]
            more += ['%s = "%s"' % (w, t) for t in ("some::path", "is_some", "Vec::new", "Option::is_none") for w in ("default", "deserialize_with") if w in told]
            for a in more:
                d = copy.deepcopy(base)
                put(d, site, a, "joined")
                sp.add_decl("%s %s: %s" % (bl, site, a), d, 1)
    # two of them, at any two places
    for bl, base in all_bases:
        if not deep and bl not in ("struct+", "borrowed", "tuple", "newtype", "external+", "internal[struct,unit]", "adjacent[newtype,struct]"):
            continue
        every = []
        for site, node in nodes(base):
            every += [(site, a, "joined") for a in serde_attrs(base, site, node)]
            every += [(site, "#[other(%s)]" % w, "foreign") for w in ('rename = "zz"', "skip", "inline", '"text"')]
            every += [(site, "/// doc", "foreign")]
        for (s1, a1, h1), (s2, a2, h2) in itertools.combinations(every, 2):
            if s1 == s2 and conflict(a1, a2):
                continue
            if {a1, a2} == {'deserialize_with = "absent"', "skip_deserializing"} and s1[:2] == s2[:2]:
                continue
            if s1 != s2 and not deep and "foreign" in (h1, h2):
                continue
            d = copy.deepcopy(base)
            put(d, s1, a1, h1)
            put(d, s2, a2, h2)
            sp.add_decl("%s %s: %s, %s: %s" % (bl, s1, a1, s2, a2), d, 2)
    return sp


def check(tier, t0):
    sp = space(tier)
    return g.run_space("C28", tier, t0, sp,
                       {"attributes beside the relevant ones": 2, "kinds of types": len(bases()), "foreign attributes": len(FOREIGN) + 9},
                       drop=None, classify=None,
                       assumptions=["functions named by attributes of deserialization do not exist: mentioning them does not compile"])
