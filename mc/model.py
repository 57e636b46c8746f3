"""The reference model.

A type is a tuple:
  ('p', 'u8')                 built-in scalar
  ('w', 'Box', t)             transparent wrapper (Box, Rc, Arc, Cell, RefCell, ref, mut)
  ('opt', t)                  Option<t>
  ('seq', 'Vec', t)           JSON array of one item type
  ('arr', n, t)               [t; n]
  ('map', 'HashMap', k, t)    JSON object with arbitrary keys
  ('tup', (t, ...))           tuple
  ('d', Decl)                 user type deriving OpgModel
  ('raw', rust, schema, [values])  anything else, with its schema spelled out

`Decl`, `Variant` and `Field` are the abstract syntax of user types.  From them the
module derives three independent things: the Rust source of the type (`render`),
Rust expressions for its values (`values`), and the OpenAPI schema a user is
entitled to (`schema`, `mention`)."""
import copy

NULL = {"description": "Always `null`", "nullable": True, "type": "string", "format": "null"}

SCALARS = {
    # rust: (schema, values)
    "u8": ({"type": "integer", "format": "uint8"}, ["0u8", "7u8"]),
    "i8": ({"type": "integer", "format": "int8"}, ["-1i8", "7i8"]),
    "u16": ({"type": "integer", "format": "uint16"}, ["7u16"]),
    "i16": ({"type": "integer", "format": "int16"}, ["-7i16"]),
    "u32": ({"type": "integer", "format": "uint32"}, ["7u32"]),
    "i32": ({"type": "integer", "format": "int32"}, ["-7i32"]),
    "u64": ({"type": "integer", "format": "uint64"}, ["u64::MAX"]),
    "i64": ({"type": "integer", "format": "int64"}, ["i64::MIN"]),
    "usize": ({"type": "integer"}, ["7usize"]),
    "isize": ({"type": "integer"}, ["-7isize"]),
    "f32": ({"type": "number", "format": "float"}, ["1.5f32"]),
    "f64": ({"type": "number", "format": "double"}, ["1.5f64", "-0.25f64"]),
    "bool": ({"type": "boolean"}, ["true", "false"]),
    "char": ({"type": "string", "format": "char"}, ["'x'"]),
    "String": ({"type": "string"}, ['"s".to_string()']),
    "str": ({"type": "string"}, []),
    "()": (NULL, ["()"]),
    "std::sync::atomic::AtomicBool": ({"type": "boolean"}, ["true.into()"]),
}
for _n, _f in (("8", "8"), ("16", "16"), ("32", "32"), ("64", "64"), ("size", None)):
    for _s, _p in (("I", "int"), ("U", "uint")):
        _sch = {"type": "integer"}
        if _f:
            _sch["format"] = _p + _f
        SCALARS["std::sync::atomic::Atomic%s%s" % (_s, _n)] = (_sch, ["7.into()"])

WRAP = {
    "Box": ("Box<%s>", "Box::new(%s)"),
    "Rc": ("std::rc::Rc<%s>", "std::rc::Rc::new(%s)"),
    "Arc": ("std::sync::Arc<%s>", "std::sync::Arc::new(%s)"),
    "Cell": ("std::cell::Cell<%s>", "std::cell::Cell::new(%s)"),
    "RefCell": ("std::cell::RefCell<%s>", "std::cell::RefCell::new(%s)"),
    "ref": ("&'static %s", "&*leak(%s)"),
    "mut": ("&'static mut %s", "leak(%s)"),
    "refa": ("&'a %s", "&*leak(%s)"),
}
SEQ = {
    "Vec": "Vec<%s>",
    "HashSet": "std::collections::HashSet<%s>",
    "LinkedList": "std::collections::LinkedList<%s>",
    "VecDeque": "std::collections::VecDeque<%s>",
    "BinaryHeap": "std::collections::BinaryHeap<%s>",
    "slice": "[%s]",
}
MAP = {
    "HashMap": "std::collections::HashMap<%s, %s>",
    "BTreeMap": "std::collections::BTreeMap<%s, %s>",
}


def P(n):
    return ("p", n)


def W(k, t):
    return ("w", k, t)


def O(t):
    return ("opt", t)


def V(t, k="Vec"):
    return ("seq", k, t)


def M(t, k="HashMap", key="String"):
    return ("map", k, key, t)


def A(n, t):
    return ("arr", n, t)


def TUP(*ts):
    return ("tup", tuple(ts))


def D(d):
    return ("d", d)


U8, STR, BOOL, F64, UNIT = P("u8"), P("String"), P("bool"), P("f64"), P("()")


class Node:
    _defaults = {}

    def __init__(self, **kw):
        for k, v in self._defaults.items():
            setattr(self, k, copy.copy(v))
        for k, v in kw.items():
            if k not in self._defaults:
                raise TypeError(k)
            setattr(self, k, v)


class Field(Node):
    """skip: None | 'skip' | 'skip_serializing' | 'skip_deserializing'
    skip_if: None | 'toggle' (enumerated both ways) | 'never' | 'always'"""
    _defaults = dict(name=None, ty=U8, rename=None, rename_form="eq", skip=None, skip_if=None,
                     default=False, flatten=False, optional=False, desc=None, format=None,
                     example=None, example_with=None, inline=False, nullable=False,
                     explicit=None, extra_serde=(), extra_opg=(), bare_ty=None, doc=None,
                     foreign=(), pred=None)

    def skipped(self):
        return self.skip in ("skip", "skip_serializing")


class Variant(Node):
    """style: 'unit' | 'newtype' | 'tuple' | 'struct'"""
    _defaults = dict(name=None, style="unit", fields=[], rename=None, rename_form="eq",
                     rename_all=None, rename_all_form="eq", skip=None, desc=None, format=None,
                     example=None, example_with=None, inline=False, disc=None,
                     extra_serde=(), extra_opg=(), foreign=())

    def skipped(self):
        return self.skip in ("skip", "skip_serializing")

    def effective(self):
        """serde writes a newtype variant whose field is skipped as a unit variant"""
        if self.style == "newtype" and self.fields[0].skipped():
            return "unit"
        return self.style


class Decl(Node):
    """kind: 'struct' | 'tuple' | 'newtype' | 'enum'
    tagging (enum): 'external' | 'internal' | 'adjacent' | 'untagged' | 'repr'"""
    _defaults = dict(name="Subj", kind="struct", fields=[], variants=[], tagging="external",
                     tag="t", content="c", rename_all=None, rename_all_form="eq",
                     rename_all_fields=None, rename_all_fields_form="eq", rename=None, rename_form="eq", transparent=False, desc=None,
                     format=None, example=None, example_with=None, inline=False, nullable=False,
                     explicit=None, repr="u8", extra_serde=(), extra_opg=(), shared=False,
                     attr_style="joined", generics="", foreign=(), derives=(), struct_tag=None, where="")

    def __deepcopy__(self, memo):
        if self.shared:
            return self
        new = Decl.__new__(Decl)
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            setattr(new, k, copy.deepcopy(v, memo))
        return new


# ------------------------------------------------------------------- names

def apply_rule_field(rule, s):
    if rule in (None, "lowercase", "snake_case"):
        return s
    if rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return ascii_upper(s)
    if rule == "kebab-case":
        return s.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return ascii_upper(s).replace("_", "-")
    words = [w for w in s.split("_") if w]
    pascal = "".join(ascii_upper(w[0]) + w[1:] for w in words)
    if rule == "PascalCase":
        return pascal
    return ascii_lower(pascal[:1]) + pascal[1:]


def apply_rule_variant(rule, s):
    if rule in (None, "PascalCase"):
        return s
    if rule == "lowercase":
        return ascii_lower(s)
    if rule == "UPPERCASE":
        return ascii_upper(s)
    if rule == "camelCase":
        return ascii_lower(s[:1]) + s[1:]
    snake = "".join(("_" if i and ch.isupper() else "") + ascii_lower(ch)
                    for i, ch in enumerate(s))
    if rule == "snake_case":
        return snake
    if rule == "SCREAMING_SNAKE_CASE":
        return ascii_upper(snake)
    if rule == "kebab-case":
        return snake.replace("_", "-")
    return ascii_upper(snake).replace("_", "-")


RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
         "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def ascii_upper(s):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)


def ascii_lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def unraw(s):
    return s[2:] if s.startswith("r#") else s


def rename_effective(node):
    """A rename that only concerns deserialization does not rename the output."""
    return node.rename is not None and node.rename_form != "de"


def rule_effective(rule, form):
    return None if form == "de" else rule


def field_name(f, rule):
    if rename_effective(f):
        return f.rename
    return apply_rule_field(rule, unraw(f.name))


def variant_name(v, d):
    if rename_effective(v):
        return v.rename
    return apply_rule_variant(rule_effective(d.rename_all, d.rename_all_form), unraw(v.name))


def variant_field_rule(v, d):
    own = rule_effective(v.rename_all, v.rename_all_form)
    if own is not None:
        return own
    return rule_effective(d.rename_all_fields, d.rename_all_fields_form)


# ------------------------------------------------------------------ render

def rust(t):
    k = t[0]
    if k == "p":
        return t[1]
    if k == "w":
        return WRAP[t[1]][0] % rust(t[2])
    if k == "opt":
        return "Option<%s>" % rust(t[1])
    if k == "seq":
        return SEQ[t[1]] % rust(t[2])
    if k == "arr":
        return "[%s; %d]" % (rust(t[2]), t[1])
    if k == "map":
        return MAP[t[1]] % (t[2], rust(t[3]))
    if k == "tup":
        return "(%s)" % "".join(rust(x) + ", " for x in t[1])
    if k == "d":
        return t[1].name
    if k == "raw":
        return t[1]
    raise ValueError(k)


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r") + '"'


def _ren(value, form, word="rename"):
    if form == "eq":
        return "%s = %s" % (word, q(value))
    if form == "ser":
        return "%s(serialize = %s)" % (word, q(value))
    if form == "both":
        return "%s(deserialize = \"zz\", serialize = %s)" % (word, q(value)) \
            if word == "rename" else "%s(serialize = %s, deserialize = \"UPPERCASE\")" % (word, q(value))
    if form == "twice":
        return "%s(deserialize = %s), %s(serialize = %s)" % (
            word, q("zz" if word == "rename" else "lowercase"), word, q(value))
    if form == "de":
        return "%s(deserialize = %s)" % (word, q(value))
    raise ValueError(form)


def _attrs(serde, opg, style, indent="", foreign=()):
    out = list(foreign)
    if style == "split":
        out += ["#[opg(%s)]" % a for a in opg] + ["#[serde(%s)]" % a for a in serde]
    elif style == "reversed":
        if opg:
            out.append("#[opg(%s)]" % ", ".join(reversed(opg)))
        if serde:
            out.append("#[serde(%s)]" % ", ".join(reversed(serde)))
    else:
        if serde:
            out.append("#[serde(%s)]" % ", ".join(serde))
        if opg:
            out.append("#[opg(%s)]" % ", ".join(opg))
    return "".join(indent + a + "\n" for a in out)


def _opg_common(n):
    out = []
    if n.desc is not None:
        out.append(q(n.desc))
    if n.format is not None:
        out.append("format = " + q(n.format))
    if n.example is not None:
        out.append("example = " + q(n.example))
    if n.example_with is not None:
        out.append("example_with = " + (q(n.example_with[0]) if type(n.example_with[0]) is str else '"%s"' % n.example_with[0]))
    if n.inline:
        out.append("inline")
    return out


def render_field(f, style, named, vis="pub "):
    s, o = [], _opg_common(f)
    if f.rename is not None:
        s.append(_ren(f.rename, f.rename_form))
    if f.skip:
        s.append(f.skip)
    if f.skip_if:
        s.append('skip_serializing_if = "%s"' % (f.pred or "skip_" + f.skip_if))
    if f.flatten:
        s.append("flatten")
    s += f.extra_serde
    if f.optional:
        o.append("optional")
    if f.nullable:
        o.append("nullable")
    if f.explicit:
        o.append(f.explicit)
    o += f.extra_opg
    ty = f.bare_ty or rust(f.ty)
    return _attrs(s, o, style, "    ", f.foreign) + "    " + \
        ("%s%s: %s," % (vis, f.name, ty) if named else "%s%s," % (vis, ty))


def render(d, quiet=False):
    """Rust source of the declaration; quiet: without an implementation of Serialize."""
    s, o = [], _opg_common(d)
    derives = ["OpgModel"]
    if quiet:
        derives.append("vquiet::Quiet")
    elif d.kind == "enum" and d.tagging == "repr":
        derives.append("serde_repr::Serialize_repr")
    else:
        derives.append("serde::Serialize")
    derives += d.derives
    if d.rename is not None:
        s.append(_ren(d.rename, d.rename_form))
    if d.rename_all is not None:
        s.append(_ren(d.rename_all, d.rename_all_form, "rename_all"))
    if d.rename_all_fields is not None:
        s.append(_ren(d.rename_all_fields, d.rename_all_fields_form, "rename_all_fields"))
    if d.transparent:
        s.append("transparent")
    if d.struct_tag:
        s.append("tag = " + q(d.struct_tag))
    if d.kind == "enum":
        if d.tagging == "internal":
            s.append("tag = " + q(d.tag))
        elif d.tagging == "adjacent":
            s += ["tag = " + q(d.tag), "content = " + q(d.content)]
        elif d.tagging == "untagged":
            s.append("untagged")
    s += d.extra_serde
    if d.nullable:
        o.append("nullable")
    if d.explicit:
        o.append(d.explicit)
    o += d.extra_opg
    out = "#[derive(%s)]\n" % ", ".join(derives)
    out += _attrs(s, o, d.attr_style, "", d.foreign)
    if d.kind == "enum" and d.tagging == "repr":
        out += "#[repr(%s)]\n" % d.repr
    st = d.attr_style
    if d.kind == "struct":
        body = " %s {\n%s\n}" % (d.where, "\n".join(render_field(f, st, True) for f in d.fields))
        return out + "pub struct %s%s%s" % (d.name, d.generics, body)
    if d.kind in ("tuple", "newtype"):
        body = "(\n%s\n) %s;" % ("\n".join(render_field(f, st, False) for f in d.fields), d.where)
        return out + "pub struct %s%s%s" % (d.name, d.generics, body)
    vs = []
    for v in d.variants:
        s, o = [], _opg_common(v)
        if v.rename is not None:
            s.append(_ren(v.rename, v.rename_form))
        if v.rename_all is not None:
            s.append(_ren(v.rename_all, v.rename_all_form, "rename_all"))
        if v.skip:
            s.append(v.skip)
        s += v.extra_serde
        o += v.extra_opg
        text = _attrs(s, o, st, "  ", v.foreign) + "  " + v.name
        if v.style == "struct":
            text += " {\n%s\n  }" % "\n".join(render_field(f, st, True, "") for f in v.fields)
        elif v.style in ("newtype", "tuple"):
            text += "(\n%s\n  )" % "\n".join(render_field(f, st, False, "") for f in v.fields)
        if v.disc is not None:
            text += " = " + v.disc
        vs.append(text + ",")
    return out + "pub enum %s%s %s {\n%s\n}" % (d.name, d.generics, d.where, "\n".join(vs))


# ------------------------------------------------------------------ values

def values(t, depth=3):
    """Rust expressions of type t: every constructor choice, one deviation at a time."""
    k = t[0]
    if k == "p":
        return list(SCALARS[t[1]][1])
    if k == "w":
        return [WRAP[t[1]][1] % v for v in values(t[2], depth)]
    if k == "opt":
        return ["None"] + ["Some(%s)" % v for v in values(t[1], depth)]
    if k == "seq":
        vs = values(t[2], depth)
        return ["vec![].into_iter().collect()"] + ["vec![%s].into_iter().collect()" % v for v in vs]
    if k == "arr":
        vs = values(t[2], depth)
        return ["[%s]" % ", ".join([v] * t[1]) for v in vs]
    if k == "map":
        vs = values(t[3], depth)
        key = {"String": '"k".to_string()', "u8": "3u8", "char": "'c'", "bool": "true", "Color": "Color::Red"}.get(t[2], "3" + t[2])
        return ["vec![].into_iter().collect()"] + \
               ["vec![(%s, %s)].into_iter().collect()" % (key, v) for v in vs]
    if k == "tup":
        return ["(%s)" % "".join(x + ", " for x in row) for row in vary([values(x, depth) for x in t[1]])]
    if k == "raw":
        return list(t[3])
    if k == "d":
        return decl_values(t[1], depth)
    raise ValueError(k)


def vary(cols):
    """The first of each column, then every other entry of one column at a time."""
    if any(not c for c in cols):
        return []
    base = [c[0] for c in cols]
    rows = [base]
    for i, c in enumerate(cols):
        for v in c[1:]:
            rows.append(base[:i] + [v] + base[i + 1:])
    return rows


def decl_values(d, depth=3):
    if depth <= 0:
        return []
    if d.kind != "enum":
        return _ctor(d.name, d.kind == "struct", d.fields, depth)
    out = []
    for v in d.variants:
        if v.skipped():
            continue
        n = "%s::%s" % (d.name, v.name)
        if v.style == "unit":
            out.append(n)
        else:
            out += _ctor(n, v.style == "struct", v.fields, depth)
    return out


def _ctor(n, named, fields, depth):
    rows = vary([values(f.ty, depth - 1) for f in fields])
    if named:
        return ["%s { %s }" % (n, ", ".join("%s: %s" % (f.name, x) for f, x in zip(fields, r)))
                for r in rows]
    return ["%s(%s)" % (n, ", ".join(r)) for r in rows]


def uses_toggle(d):
    fs = list(d.fields) + [f for v in d.variants for f in v.fields]
    return any(f.skip_if == "toggle" for f in fs)


# ------------------------------------------------------------------ schema

class Cx:
    def __init__(self):
        self.components = {}


class Params:
    __slots__ = ("desc", "nullable", "variants", "format", "example")

    def __init__(self, desc=None, nullable=None, variants=None, format=None, example=None):
        self.desc, self.nullable, self.variants = desc, nullable, variants
        self.format, self.example = format, example

    def with_nullable(self):
        return Params(self.desc, True if self.nullable is None else self.nullable,
                      self.variants, self.format, self.example)


def example_of(n):
    if n.example is not None:
        return n.example
    if n.example_with is not None:
        return n.example_with[1]
    return None


def params_of(*nodes):
    """The first node that says something wins (field before variant or container)."""
    p = Params()
    for n in nodes:
        if p.desc is None:
            p.desc = n.desc
        if p.nullable is None and getattr(n, "nullable", False):
            p.nullable = True
        if p.format is None:
            p.format = n.format
        if p.example is None:
            p.example = example_of(n)
    return p


def apply(s, p):
    s = dict(s)
    desc = p.desc if p.desc is not None else s.get("description")
    if "type" in s:
        if p.nullable is True:
            s["nullable"] = True
        elif p.nullable is False:
            s.pop("nullable", None)
        if s["type"] in ("string", "number", "integer"):
            if p.format is not None:
                s["format"] = p.format
            if p.example is not None:
                s["example"] = p.example
        if s["type"] == "string" and p.variants is not None:
            s["enum"] = p.variants
    elif p.nullable is True:
        s.pop("description", None)
        s = {"oneOf": [s, NULL]}
    if desc is not None:
        s["description"] = desc
    return s


def typed(kind, desc=None, nullable=False, **kw):
    s = {"type": kind}
    if desc is not None:
        s["description"] = desc
    if nullable:
        s["nullable"] = True
    for k, v in kw.items():
        if v is not None:
            s[k] = v
    return s


def one_of(alts, desc=None):
    s = {"oneOf": alts}
    if desc is not None:
        s["description"] = desc
    return s


def schema(t, cx):
    k = t[0]
    if k == "p":
        return dict(SCALARS[t[1]][0])
    if k == "w":
        return schema(t[2], cx)
    if k == "opt":
        return apply(schema(t[1], cx), Params(nullable=True))
    if k in ("seq", "arr"):
        return typed("array", items=mention(t[2], False, Params(), cx))
    if k == "map":
        return typed("object", additionalProperties=mention(t[3], False, Params(), cx))
    if k == "tup":
        if len(t[1]) == 1:
            return typed("array", items=mention(t[1][0], False, Params(), cx))
        return typed("array", items=one_of([mention(x, False, Params(), cx) for x in t[1]]))
    if k == "raw":
        return copy.deepcopy(t[2])
    return decl_schema(t[1], cx)


def mention(t, inline, p, cx):
    k = t[0]
    if k == "w":
        return mention(t[2], inline, p, cx)
    if k == "opt":
        return mention(t[1], inline, p.with_nullable(), cx)
    if k == "d":
        d = t[1]
        if d.inline or inline:
            return apply(decl_schema(d, cx), p)
        if d.name not in cx.components:
            cx.components[d.name] = None
            cx.components[d.name] = decl_schema(d, cx)
        ref = {"$ref": "#/components/schemas/" + d.name}
        if p.nullable is True:
            return one_of([ref, NULL], p.desc)
        return ref
    return apply(schema(t, cx), p)


def type_name(t):
    k = t[0]
    if k == "w":
        return type_name(t[2])
    if k == "opt":
        return type_name(t[1])
    if k == "d" and not t[1].inline:
        return t[1].name
    return None


def explicit_schema(kind, p, nullable):
    s = typed(kind, p.desc, nullable)
    if kind != "boolean":
        if p.format is not None:
            s["format"] = p.format
        if p.example is not None:
            s["example"] = p.example
    return s


def field_ref(f, inline, p, cx):
    if f.explicit == "any":
        return {}
    if f.explicit:
        return explicit_schema(f.explicit, p, f.nullable)
    return mention(f.ty, inline, p, cx)


def object_schema(fields, rule, inline, cx, desc=None, nullable=False):
    props, req = {}, []
    for f in fields:
        if f.skipped():
            continue
        n = field_name(f, rule)
        props[n] = field_ref(f, inline or f.inline, params_of(f), cx)
        if not (f.optional or f.skip_if):
            req.append(n)
    return typed("object", desc, nullable, properties=props or None, required=req or None)


def tuple_schema(fields, inline, cx, desc=None, nullable=False):
    items = [field_ref(f, inline or f.inline, params_of(f), cx) for f in fields if not f.skipped()]
    return typed("array", desc, nullable, items=one_of(items))


def decl_schema(d, cx):
    if d.kind == "enum":
        return enum_schema(d, cx)
    if d.transparent or d.kind == "newtype":
        f = [x for x in d.fields if not x.skipped()][0] if d.transparent else d.fields[0]
        p = params_of(f, d)
        explicit = f.explicit or d.explicit
        if explicit == "any":
            s = {"anyOf": [{}]}
            if p.desc is not None:
                s["description"] = p.desc
            return s
        if explicit:
            return explicit_schema(explicit, p, d.nullable or f.nullable)
        return apply(schema(f.ty, cx), p)
    if d.kind == "tuple":
        return tuple_schema(d.fields, False, cx, d.desc, d.nullable)
    s = object_schema(d.fields, rule_effective(d.rename_all, d.rename_all_form), False, cx,
                      d.desc, d.nullable)
    if d.struct_tag:
        s["properties"] = dict(s.get("properties", {}), **{
            d.struct_tag: string_enum([d.rename if rename_effective(d) else unraw(d.name)])})
        s["required"] = s.get("required", []) + [d.struct_tag]
    return s


def string_enum(names, desc=None, node=None):
    s = typed("string", desc, enum=names)
    if node is not None and node.format is not None:
        s["format"] = node.format
    if node is not None and example_of(node) is not None:
        s["example"] = example_of(node)
    elif names:
        s["example"] = names[0]
    return s


def variant_content(v, d, cx):
    if v.effective() == "newtype":
        f = v.fields[0]
        return field_ref(f, v.inline or f.inline, params_of(f, v), cx)
    if v.effective() == "tuple":
        return tuple_schema(v.fields, v.inline, cx, v.desc)
    return object_schema(v.fields, variant_field_rule(v, d), v.inline, cx, v.desc)


def enum_schema(d, cx):
    live = [v for v in d.variants if not v.skipped()]
    null = Params(nullable=True if d.nullable else None)
    if d.tagging == "repr":
        alts = []
        for i, v in enumerate(d.variants):
            if not v.skipped():
                ex = example_of(v)
                if ex is None:
                    ex = v.disc if v.disc is not None else str(i)
                alts.append(typed("integer", v.desc if v.desc is not None else variant_name(v, d) + " variant",
                                  format=v.format, example=ex))
        return apply(one_of(alts, d.desc), null)
    if d.tagging == "external":
        if all(v.effective() == "unit" for v in live):
            return apply(string_enum([variant_name(v, d) for v in live], d.desc, d), null)
        alts = [string_enum([variant_name(v, d)], v.desc, v) if v.effective() == "unit"
                else variant_content(v, d, cx) for v in live]
        return typed("object", d.desc, d.nullable, additionalProperties=one_of(alts, d.desc))
    if d.tagging == "untagged":
        alts = [mention(UNIT, False, params_of(v), cx) if v.effective() == "unit"
                else variant_content(v, d, cx) for v in live]
        return apply(one_of(alts, d.desc), null)
    if d.tagging == "adjacent":
        names = [variant_name(v, d) for v in live]
        contents = [variant_content(v, d, cx) for v in live if v.effective() != "unit"]
        props = {d.tag: string_enum(names, d.name + " type variant")}
        req = [d.tag]
        if contents:
            props[d.content] = one_of(contents, d.desc)
            if len(contents) == len(live):
                req.append(d.content)
        return typed("object", d.desc, d.nullable, properties=props, required=req)
    alts = []
    for v in live:
        if v.effective() == "unit":
            s = typed("object", v.desc)
        elif v.effective() == "newtype":
            s = apply(schema(v.fields[0].ty, cx), params_of(v.fields[0], v))
        else:
            s = object_schema(v.fields, variant_field_rule(v, d), v.inline, cx, v.desc)
        tag = typed("object", properties={d.tag: string_enum([variant_name(v, d)],
                                                             d.name + " type variant")},
                    required=[d.tag])
        if s.get("type") == "object" and d.tag not in s.get("properties", {}):
            s = dict(s)
            s["properties"] = dict(s.get("properties", {}), **tag["properties"])
            s["required"] = list(s.get("required", [])) + [d.tag]
        else:
            s = {"allOf": [s, tag]}
        alts.append(s)
    return apply(one_of(alts, d.desc), null)


# -------------------------------------------------------------- comparison

def canon(s):
    """Order of `required`, `enum` and alternatives carries no meaning."""
    if isinstance(s, dict):
        out = {}
        for k, v in s.items():
            v = canon(v)
            if k in ("required", "oneOf", "anyOf", "allOf", "enum") and isinstance(v, list):
                v = sorted(v, key=repr_key)
            out[k] = v
        return out
    if isinstance(s, list):
        return [canon(x) for x in s]
    return s


def repr_key(x):
    import json
    return json.dumps(x, sort_keys=True, ensure_ascii=False)


ANNOT = ("description", "example")


def project(s, drop, in_map=False):
    """Removes keywords from schemas, never from maps of named things."""
    if isinstance(s, dict):
        out = {}
        for k, v in s.items():
            if not in_map and k in drop:
                continue
            out[k] = project(v, drop, (not in_map) and k in ("properties",))
        return out
    if isinstance(s, list):
        return [project(x, drop) for x in s]
    return s


def only(s, keep, in_map=False):
    """Keeps the given keywords plus the structure leading to them."""
    struct = ("properties", "items", "additionalProperties", "oneOf", "anyOf", "allOf", "$ref")
    if isinstance(s, dict):
        out = {}
        for k, v in s.items():
            if not in_map and k not in keep and k not in struct:
                continue
            out[k] = only(v, keep, (not in_map) and k == "properties")
        return out
    if isinstance(s, list):
        return [only(x, keep) for x in s]
    return s


def expected(t):
    """Everything `vsupport::observe` reports, as the reference predicts it."""
    cx = Cx()
    ref = mention(t, False, Params(), cx)
    own = Cx()
    return {"ref": ref, "components": cx.components, "verify": None,
            "schema": schema(t, own), "type_name": type_name(t)}


# --------------------------------------------------------------- vocabulary

NAMED = ("null true false Any None type $ref nullable description required properties items format example enum oneOf default deprecated "
         "#/components/schemas/A #/A A#/B A::B Vec<A> {a} {{a}} {} %7Ba%7D a%20b ~0~1 http://a/b?c=d&e#f Foo foo FOO \u017f \u00df \u0130 uuid date 1e5 -1 0x10 NaN 1.50 00 "
         "OK ok Not_Found name in title header query path cookie get GET basic bearer JWT api-key X-Api-Key Authorization // /a a/ a/b a//b ./a ../a .").split() + [
             "a b", " a", "a ", " ", "  ", "\r\n", "\ufeff", "\u200b", "Always `null`", "two words here", "Ends with a dot.", "a\nb\n", "\na"]
ALPHABET = "aAz09_-./#~%${}<>:, \"\\\n\t\u00e9\U0001F980"


def words(deep):
    """Texts: all of up to one (two) characters of an alphabet, telling words, and lengths."""
    out = [""] + list(ALPHABET)
    if deep:
        out += [a + b for a in ALPHABET for b in ALPHABET]
    out += NAMED
    out += ["x" * n for n in (range(3, 301) if deep else (3, 8, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300))]
    return list(dict.fromkeys(out))


IDENTS = ("a A _a a_ __ a1 aB ab_cd AB Type type match async fn self_ \u00e9 \u00c9t \u03b1\u03b2 header query path schema description required deprecated summary operationId "
          "GET POST get body security parameters callbacks tags info title version servers paths security_schemes None Some string number object link raw_model properties items variants format example "
          "http apiKey scheme Basic name parameter_in bearer_format context operation result schema_ components x y z1 z2 Vec String u8").split()
SIZES = (4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20)
