"""The derive and the macros work wherever they are written."""
import copy
import glob
import itertools
import os
import re

import api
import core
import derive as g
import model as m
from api import L, Source
from derive import PAL
from model import D, Decl, Field, O, STR, U8, V, Variant
from props.c07 import KINDS, container

DENY = "#[deny(warnings)] #[allow(dead_code, non_camel_case_types, non_snake_case)]"
SHARED = [d.name for d in g.SHARED]

# (label, program around the declaration); N: its name, D: the declaration, U: imports, OBS: the observation
PLACES = [
    ("module", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)s%(D)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("path", "%(deny)s pub mod inner {\n%(U)s%(P)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("root path", "%(deny)s pub mod inner {\n%(U)s%(PP)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("renamed import", "%(deny)s pub mod inner { use opg::OpgModel as Describe;\n%(U)s%(R)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("everything imported", "%(deny)s pub mod inner { use opg::*;\n%(U)s%(D)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("private", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)s%(priv)s\npub fn run(o: &mut vsupport::Obs) { vsupport::observe::<%(N)s>(o); } }", "inner::run(o);"),
    ("pub(super)", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)s%(sup)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("nested modules", "%(deny)s pub mod inner { pub(super) mod more { mod still { use opg::OpgModel;\n%(U)s%(D)s } pub use still::%(N)s; } }", "vsupport::observe::<inner::more::%(N)s>(o);"),
    ("function", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)spub fn run(o: &mut vsupport::Obs) {\n%(priv)s\nvsupport::observe::<%(N)s>(o); } }", "inner::run(o);"),
    ("function, after the use", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)spub fn run(o: &mut vsupport::Obs) { vsupport::observe::<%(N)s>(o);\n%(priv)s\n } }", "inner::run(o);"),
    ("block", "%(deny)s pub mod inner { %(U)spub fn run(o: &mut vsupport::Obs) { if o.is_empty() { use opg::OpgModel; %(priv)s\nvsupport::observe::<%(N)s>(o); } } }", "inner::run(o);"),
    ("closure", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)spub fn run(o: &mut vsupport::Obs) { let f = |o: &mut vsupport::Obs| {\n%(priv)s\nvsupport::observe::<%(N)s>(o); }; f(o); } }", "inner::run(o);"),
    ("method", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)spub struct Me; impl Me { pub fn run(self, o: &mut vsupport::Obs) {\n%(priv)s\nvsupport::observe::<%(N)s>(o); } } }", "inner::Me.run(o);"),
    ("trait method", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)spub trait Run { fn run(&self, o: &mut vsupport::Obs) {\n%(priv)s\nvsupport::observe::<%(N)s>(o); } } pub struct Me; impl Run for Me {} }", "use inner::Run; inner::Me.run(o);"),
    ("generic function", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)spub fn run<T>(o: &mut vsupport::Obs) {\n%(priv)s\nvsupport::observe::<%(N)s>(o); } }", "inner::run::<u8>(o); o.clear(); inner::run::<String>(o);"),
    ("constant", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)spub trait Get { type T; } pub struct Me; const _: () = {\n%(D)s\nimpl Get for Me { type T = %(N)s; } }; }", "vsupport::observe::<<inner::Me as inner::Get>::T>(o);"),
    ("macro", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)smacro_rules! id { ($($t:tt)*) => { $($t)* } }\nid! {\n%(D)s\n} }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("macro of an item", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)smacro_rules! id { ($t:item) => { $t } }\nid! {\n%(D)s\n} }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("macro with the name", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)smacro_rules! id { ($n:ident) => { %(M)s } }\nid!(%(N)s); }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("macro in a function", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)smacro_rules! id { ($($t:tt)*) => { $($t)* } }\npub fn run(o: &mut vsupport::Obs) { id! {\n%(priv)s\n} vsupport::observe::<%(N)s>(o); } }", "inner::run(o);"),
    ("cfg_attr", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)s%(cfg)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("separate derives", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)s%(sep)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("derived last", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)s%(last)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("twice in one block", "%(deny)s pub mod inner { use opg::OpgModel;\n%(U)s%(D)s\npub mod other { use opg::OpgModel; %(U2)s%(D)s }\npub fn run(o: &mut vsupport::Obs) { %(priv)s\nvsupport::observe::<%(N)s>(o); o.clear(); vsupport::observe::<other::%(N)s>(o); } }", "inner::run(o);"),
    ("strict lints", "#[deny(warnings, unused, nonstandard_style, rust_2018_idioms, unsafe_code)] #[allow(dead_code)] pub mod inner { use opg::OpgModel;\n%(U)s%(D)s }", "vsupport::observe::<inner::%(N)s>(o);"),
    ("no unsafe code", "#[forbid(unsafe_code)] pub mod inner { use opg::OpgModel;\n%(U)s%(D)s }", "vsupport::observe::<inner::%(N)s>(o);"),
]

UPPER = ("Model", "Components", "ModelReference", "ModelData", "ModelType", "ModelOneOf", "ModelObject", "ModelString", "ModelSimple", "ModelArray", "ModelTypeDescription",
         "ContextParams", "Opg", "Tag", "Server", "Inline", "Link", "Any", "Single", "OneOf", "Object", "Array", "Integer", "Number", "Boolean", "Cow", "BTreeMap", "HashMap",
         "Serialize", "Value", "T", "E", "K", "S", "D", "Self_", "Type", "Schema", "Path", "Operation", "Response", "Info", "Subject", "OpgModel", "Borrow", "Owned")
MODELS = ("OperationParameter", "ParameterIn", "PathElement", "PathValue", "RequestBody", "SecurityScheme", "HttpSecurityScheme", "ApiKeySecurityScheme", "CallbackObject", "HttpMethod",
          "HttpSecuritySchemeKind", "ParameterNotSpecified", "StatusCode", "Parameter", "Header", "Query", "Bearer", "Basic", "Http", "ApiKey", "FromStrangeTuple", "Get", "Callback", "Scheme", "Context")
LOWER = ("cx", "model", "properties", "required", "tag_model", "params", "inline", "type_name", "name", "description", "one_of", "any_of", "all_of", "variants", "data", "reference",
         "additional_properties", "items", "nullable", "format", "example", "get_schema", "select_reference", "get_schema_with_params", "mention_schema", "apply_params", "link",
         "schemas", "result", "context", "tag", "content", "value", "ident", "field", "variant", "_opg", "self_", "other", "title", "schema", "key", "t", "e", "x")


# names which the generated code may rely on: the standard prelude, primitive types, keywords, crates
TAKEN = set("""as async await box break const continue crate dyn else enum extern false fn for gen if impl in let loop match mod move mut override priv pub ref return self Self static struct super trait true try type
typeof union unsafe unsized use virtual where while yield abstract become do final macro macro_rules
bool char str f16 f32 f64 f128 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize
Option Some None Result Ok Err Box Vec String ToString ToOwned Into From TryFrom TryInto AsRef AsMut Default Clone Copy Debug Hash Eq PartialEq Ord PartialOrd Iterator IntoIterator Extend DoubleEndedIterator ExactSizeIterator
FromIterator Drop Fn FnMut FnOnce Send Sync Sized Unpin drop size_of align_of
vec format panic assert assert_eq assert_ne stringify concat println print eprintln write writeln matches todo unreachable unimplemented include_str env option_env line file column module_path cfg debug_assert dbg derive test allow
std core alloc opg serde serde_json serde_repr uuid chrono http vsupport _ _opg""".split())

KEYWORDS = set("""as async await box break const continue crate dyn else enum extern false fn for gen if impl in let loop match mod move mut override priv pub ref return self Self static struct super trait true try type
typeof unsafe unsized use virtual where while yield abstract become do final macro""".split())


def scan(pattern):
    """Every identifier in the library's source: the names with which a user's could clash."""
    out = set()
    for f in sorted(glob.glob(os.path.join(core.REPO, pattern))):
        out |= set(re.findall(r"[A-Za-z_]\w*", re.sub(r"//.*", "", open(f, encoding="utf8").read())))
    out = {n for n in out if n not in TAKEN and not n.startswith("r#")}
    screaming = {n for n in out if re.fullmatch(r"[A-Z][A-Z0-9_]*", n)}
    upper = {n for n in out if re.fullmatch(r"[A-Z][A-Za-z0-9]*", n)}
    lower = {n for n in out if re.fullmatch(r"_*[a-z][a-z0-9_]*", n)}
    return sorted(screaming), sorted(upper), sorted(lower)


def texts_of(d):
    text = m.render(d)
    vis = lambda v: re.sub(r"^pub (struct|enum) ", v + r"\1 ", text.replace("pub ", v) if d.kind != "enum" else text, flags=re.M)
    first = text.split("\n", 1)
    names = re.findall(r"derive\((.*)\)", first[0])[0].split(", ")
    used = [n for n in SHARED + ["skip_never"] if re.search(r"\b%s\b" % n, text)]
    return {"D": text, "P": text.replace("derive(OpgModel", "derive(opg::OpgModel"), "PP": text.replace("derive(OpgModel", "derive(::opg::OpgModel"),
            "R": text.replace("derive(OpgModel", "derive(Describe"), "priv": vis(""), "sup": vis("pub(super) "),
            "M": re.sub(r"^pub (struct|enum) %s\b" % d.name, r"pub \1 $n", text, flags=re.M),
            "cfg": "#[cfg_attr(all(), derive(%s))]\n" % ", ".join(names) + re.sub(r"#\[(opg|serde)(\(.*\))\]", r"#[cfg_attr(all(), \1\2)]", first[1]),
            "sep": "".join("#[derive(%s)]\n" % n for n in names) + first[1], "last": "#[derive(%s)]\n" % ", ".join(names[::-1]) + first[1],
            "U": "".join("use crate::prelude::%s;\n" % n for n in used), "U2": "".join("use crate::prelude::%s;\n" % n for n in used), "N": d.name, "deny": DENY}


def decls(deep):
    """(label, declaration): every kind of container, some members, every attribute."""
    out = []
    for kind in KINDS:
        for tn in ("u8", "leaf", "opt_leaf", "vec_leaf", "inl", "unt") if not deep else PAL:
            out.append(("%s<%s>" % (kind, tn), container(kind, PAL[tn])))
        for label, kw in (("inline", {"inline": True}), ("nullable", {"nullable": True}), ("string", {"explicit": "string"}), ("any", {"explicit": "any"}), ("desc", {"desc": "text"}),
                          ("format", {"format": "ff"}), ("example", {"example": "ee"}), ("example_with", {"example_with": ("1 + 1", "2")}), ("optional", {"optional": True}),
                          ("skip_if", {"skip_if": "never"}), ("skip", {"skip": "skip"}), ("rename", {"rename": "zz"})):
            for tn in ("leaf", "u8"):
                d = container(kind, PAL[tn], **kw)
                if g.valid(d, False) and not (label in ("rename", "skip_if", "optional") and not (kind == "struct" or kind.endswith(".struct"))):
                    out.append(("%s<%s %s>" % (kind, label, tn), d))
        for label, kw in (("inline", {"inline": True}), ("nullable", {"nullable": True}), ("desc", {"desc": "text"}), ("camel", {"rename_all": "camelCase"}), ("rename", {"rename": "Zz"})):
            d = container(kind, PAL["leaf"])
            for k, v in kw.items():
                setattr(d, k, v)
            if g.valid(d, False):
                out.append(("%s %s" % (kind, label), d))
    for mode in ("external", "internal", "adjacent", "repr"):
        for n in (1, 2, 3):
            out.append(("%s units %d" % (mode, n), Decl(kind="enum", tagging=mode, variants=[Variant(name="V%d" % i) for i in range(n)])))
    out.append(("empty struct", Decl(fields=[])))
    out.append(("tagged", Decl(struct_tag="tg", fields=[Field(name="a", ty=U8)])))
    for x in ("string", "number", "integer", "boolean", "any"):
        out.append(("newtype as " + x, Decl(kind="newtype", explicit=x, fields=[Field(name="0", ty=U8)])))
    return out


def named(kind, field, tn, variant="Va", name="Subj"):
    d = container(kind, PAL[tn], name=name)
    fs = d.fields if d.kind != "enum" else d.variants[0].fields
    if kind in ("struct", "transparent") or kind.endswith(".struct"):
        fs[0].name = field
    if d.kind == "enum":
        d.variants[0].name = variant
    return d


def space(tier):
    deep = tier == "thorough"
    sp = Sp()
    ds = decls(deep)
    for pl, items, body in PLACES:
        for label, d in ds:
            sub = texts_of(d)
            sp.add("%s: %s" % (pl, label), items % sub, body % sub, D(d), 2)
    # names of the user's own
    _, uppers, lowers = scan("opg_derive/src/*.rs")
    FEW = ("struct", "newtype", "external.tuple", "internal.newtype", "adjacent.struct", "untagged.struct")
    for kind, name in [(k, n) for k in KINDS for n in UPPER + LOWER] + [(k, n) for k in (KINDS if deep else FEW) for n in uppers + (lowers if deep or k in ("struct", "adjacent.struct") else []) if n not in UPPER + LOWER]:
        if True:
            lower = not name[0].isupper()
            # a type of this name
            if not (lower and kind in ("tuple", "newtype")):
                for tn in ("u8", "leaf") if deep else ("leaf",):
                    sub = texts_of(container(kind, PAL[tn], name=name))
                    if name != "_opg":
                        sp.add("type %s: %s<%s>" % (name, kind, tn), "%(deny)s pub mod inner {\n%(U)s%(P)s }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(container(kind, PAL[tn], name=name)), 2)
            # a member of this name
            if (kind in ("struct", "transparent") or kind.endswith(".struct")) and not (kind == "internal.struct" and name == "t"):
                for tn in ("u8", "leaf") if deep else ("leaf",):
                    d = named(kind, name, tn)
                    sub = texts_of(d)
                    sp.add("field %s: %s<%s>" % (name, kind, tn), "%(deny)s pub mod inner {\n%(U)s%(P)s }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(d), 2)
            if "." in kind:
                for tn in ("u8", "leaf") if deep else ("leaf",):
                    d = named(kind, "a", tn, name)
                    sub = texts_of(d)
                    sp.add("variant %s: %s<%s>" % (name, kind, tn), "%(deny)s pub mod inner {\n%(U)s%(P)s }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(d), 2)
            # a type of this name as the member
            if name not in ("_opg", "Subj"):
                own = Decl(name=name, fields=[Field(name="q", ty=U8)])
                for how in ("shared", "inline"):
                    d = container(kind, D(own), inline=how == "inline")
                    sub = texts_of(d)
                    sub["own"] = m.render(own).replace("derive(OpgModel", "derive(opg::OpgModel")
                    sp.add("member of type %s, %s: %s" % (name, how, kind), "%(deny)s pub mod inner {\n%(own)s\n%(P)s }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(d), 3)
            # an unrelated item of this name
            for item in ("fn %s() {}", "pub mod %s {}", "#[allow(unused_macros)] macro_rules! %s { () => {} }", "pub trait %s {}", "pub struct %s {}", "pub enum %s {}", "pub type %s = u8;") \
                    + (("pub const %s: u8 = 1;", "pub static %s: u8 = 1;", "pub struct %s;", "pub struct %s(u8);") if not lower else ()):
                if name == "format" and "macro_rules" in item or not deep and kind not in ("struct", "adjacent.struct") or name not in UPPER + LOWER and item.split()[1] not in ("mod", "struct", "const", "type"):
                    continue
                for tn in ("leaf",):
                    d = container(kind, PAL[tn])
                    sub = texts_of(d)
                    sub["item"] = item % name
                    sp.add("beside %s: %s" % (item % name, kind), "%(deny)s #[allow(non_upper_case_globals)] pub mod inner {\n%(U)s%(item)s\n%(PP)s }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(d), 2)
            # an associated function of this name
            if lower:
              for inl in (False, True):
                d = container(kind, PAL["leaf"])
                d.inline = inl
                sub = texts_of(d)
                for f in ("pub fn %s() -> u8 { 0 }", "pub fn %s(&self) -> u8 { 0 }") if name not in ("self_",) else ():
                    sub["f"] = f % name
                    sp.add("with %s: %s%s" % (f % name, kind, " inline" if inl else ""), "%(deny)s pub mod inner {\n%(U)s%(P)s\nimpl Subj { %(f)s } }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(d), 2)
    # variants and members named like what is in scope everywhere (their names are not in scope themselves)
    prelude = [n for n in sorted(TAKEN - KEYWORDS) if n != "_"]
    for name in prelude:
        if name[0].isupper():
            for kind in [k for k in KINDS if "." in k]:
                d = named(kind, "a", "leaf", name)
                sub = texts_of(d)
                sp.add("variant %s: %s" % (name, kind), "%(deny)s pub mod inner {\n%(U)s%(P)s }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(d), 2)
        else:
            for kind in [k for k in KINDS if k in ("struct", "transparent") or k.endswith(".struct")]:
                d = named(kind, name, "leaf")
                sub = texts_of(d)
                sp.add("field %s: %s" % (name, kind), "%(deny)s pub mod inner {\n%(U)s%(P)s }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(d), 2)
    for names in [(n,) for n in UPPER + tuple(uppers) + tuple(n for n in prelude if n[0].isupper())] + [("Some", "None"), ("Ok", "Err"), ("String", "Vec", "Box", "Option")]:
        for mode in ("external", "internal", "adjacent", "repr"):
            d = Decl(kind="enum", tagging=mode, variants=[Variant(name=n) for n in names] + [Variant(name="Zz")])
            sub = texts_of(d)
            sp.add("units %s: %s" % (",".join(names), mode), "%(deny)s pub mod inner {\n%(U)s%(P)s }" % sub, "vsupport::observe::<inner::%(N)s>(o);" % sub, D(d), 2)
    hand(sp)
    return sp


def hand(sp):
    """The schema macro with locals and properties of every name, in a description written by hand."""
    text = """#[deny(warnings)] #[allow(dead_code)] pub mod inner { %s
pub struct Subj;
impl opg::OpgModel for Subj {
    fn get_schema(components: &mut opg::Components) -> opg::Model { %s }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { Some("Subj".into()) }
} }"""
    for name in LOWER + LOCALS:
        if name == "components":
            continue
        one = D(Decl(fields=[Field(name=name, ty=STR)]))
        link = D(Decl(fields=[Field(name=name, ty=D(g.LEAF))]))
        lst = D(Decl(fields=[Field(name=name, ty=V(STR))]))
        lets = "let _ = components; let %s = opg::describe_type!(string => {}); " % name
        for imp, pre in (("use opg::describe_type;", ""), ("", "opg::"), ("#[allow(unused_imports)] use opg::*;", "")):
            for label, body, exp in (
                    ("model", lets + pre + "describe_type!(object => { properties: { %s[required]: (raw_model => %s) } })" % (name, name), one),
                    ("items", lets + pre + "describe_type!(object => { properties: { %s[required]: (array => { items: (raw_model => %s) }) } })" % (name, name), lst),
                    ("type", lets.replace(";", ".data;").replace("components.data", "components") + pre + "describe_type!(object => { properties: { %s[required]: (raw_type => { ident: %s }) } })" % (name, name), one),
                    ("link", "components.mention_schema::<crate::prelude::Leaf>(false, &Default::default()); let %s = \"Leaf\"; " % name
                     + pre + "describe_type!(object => { properties: { %s[required]: (link => %s) } })" % (name, name), link),
                    ("owned link", "components.mention_schema::<crate::prelude::Leaf>(false, &Default::default()); let %s = String::from(\"Leaf\"); " % name
                     + pre + "describe_type!(object => { properties: { %s[required]: (link => %s) } })" % (name, name), link)):
                sp.add("schema macro with local %s as %s, %s%s" % (name, label, imp, pre), text % (imp, body), "vsupport::observe::<inner::Subj>(o);", exp, 3)


class Sp:
    def __init__(self):
        self.cases, self.seen, self.transitions = [], set(), 0

    def add(self, label, items, body, expect, edges):
        self.transitions += edges
        if (items, body) in self.seen:
            return
        self.seen.add((items, body))
        self.cases.append(core.Case(label, items, body, expect=expect, meta={"decls": [], "values": []}))


# --------------------------------------------------------------- expressions

def local(name, value):
    return ("expr", name, value)


LOCALS = ("result", "context", "path", "operation", "parameter", "name", "description", "required", "schema", "scheme", "bearer_format", "parameter_in", "security",
          "callback_object", "http_security_scheme", "full_name", "chars", "title", "version", "info", "tags", "servers", "paths", "properties", "summary", "doc", "opg", "url", "x",
          "components", "params", "i", "status", "deprecated", "body", "code", "cx", "operation_id", "value")


def everything(t):
    """An API with an expression at every place which takes one; t(place): the expression."""
    return [("info", [("title", t("title")), ("version", t("version")), ("description", t("description"))]),
            ("tags", [("ta", t("tag")), ("tb", None)]),
            ("security_schemes", [("http", "h", [("scheme", "Bearer"), ("bearer_format", t("bearer_format")), ("description", t("description"))]),
                                  ("apiKey", t("key"), [("name", t("name")), ("description", t("description"))])]),
            ("paths", [dict(segs=[("lit", "p"), ("named", "id", U8)], entries=[
                ("parameters", params(t, "p")),
                ("GET", [("summary", t("summary")), ("operationId", t("operation_id")), ("description", t("description")), ("deprecated", True), ("parameters", params(t, "o")),
                         ("callbacks", [("id", "cb", [dict(segs=[("lit", "c")], entries=[("parameters", params(t, "c")), ("GET", [("summary", t("summary")), ("parameters", params(t, "d")), ("resp", 200, None, "none", None)])])])]),
                         ("resp", 200, None, "type", D(g.LEAF))])])])]


def params(t, x):
    """Parameters with an expression at every place; only one name is an expression's, since a document keeps parameters by name."""
    return [dict(at="header", name=t("header"), props=[("description", t("description"))] if x in "pd" else None),
            dict(at="header", name=L(x), props=[("description", t("description"))]), dict(at="query", name="qq" + x, ty=U8, props=[("description", t("description")), ("required", True)])]


SURROUNDINGS = [
    ("let", "let doc: Opg = %s;"), ("block", "let doc = { %s };"), ("closure", "let f = || %s; let doc = f();"), ("argument", "let doc = std::convert::identity(%s);"),
    ("match", "let doc = match 1 { 1 => %s, _ => Opg::default() };"), ("if", "let doc = if true { %s } else { Opg::default() };"), ("tuple", "let (doc, _) = (%s, 1);"),
    ("vec", "let doc = vec![%s].remove(0);"), ("field", "struct F { f: Opg } let doc = F { f: %s }.f;"), ("method", "let doc = (%s).clone();"), ("return", "fn f() -> Opg { return %s; } let doc = f();"),
    ("tail", "fn f() -> Opg { %s } let doc = f();"), ("generic", "fn f<T: Sized>() -> Opg { %s } let doc = f::<u8>();"), ("loop", "let doc = loop { break %s; };"),
    ("macro", "macro_rules! id { ($e:expr) => { $e } } let doc = id!(%s);"), ("macro tokens", "macro_rules! id { ($($e:tt)*) => { $($e)* } } let doc = id!(%s);"),
    ("result", "fn f() -> Result<Opg, ()> { Ok(%s) } let doc = f().unwrap();"), ("async", "#[allow(unused)] async fn f() -> Opg { %s } let doc = vsupport::now(f());"),
    ("default of a trait", "trait Doc { fn doc(&self) -> Opg { %s } } impl Doc for u8 {} let doc = 1u8.doc();"),
]


def api_cases(deep):
    out = []

    def add(label, lets, surround, text, expect):
        body = "%s\n%s\no.insert(\"doc\".into(), vsupport::Value::String(vsupport::serde_json::to_string(&doc).unwrap()));" % (lets, surround % text)
        items = "%s pub mod inner { #[allow(unused_imports)] use opg::*; use crate::prelude::*;\npub fn run(o: &mut vsupport::Obs) {\n%s\n} }" % (
            "#[deny(warnings)] #[allow(unused_imports, unused_braces, unused_parens, clippy::all, unreachable_code, async_fn_in_trait)]", body)
        out.append(core.Case(label, items, "inner::run(o);", expect=expect, meta={}))

    def raw(label, imp, own, statement, expect):
        items = "#[deny(warnings)] #[allow(unused_imports, unused_macros, dead_code, unused_braces, unused_parens)] pub mod inner { %s\n%s\npub fn run(o: &mut vsupport::Obs) {\n%s\n%s\n} }" % (
            imp, own, statement, "o.insert(\"doc\".into(), vsupport::Value::String(vsupport::serde_json::to_string(&doc).unwrap()));")
        out.append(core.Case(label, items, "inner::run(o);", expect=expect, meta={"named": True}))

    # locals of every name at every place
    for name in LOCALS:
        a = everything(lambda p: local(name, "vv"))
        add("local %s" % name, 'let %s = "vv";' % name, "let doc: Opg = %s;", Source().api(a), a)
        add("owned local %s" % name, 'let %s = String::from("vv");' % name, "let doc: Opg = %s;", Source().api(everything(lambda p: ("expr", "&" + name, "vv"))), a)
        b = everything(lambda p: L("lit"))
        path = b[3][1][0]
        text = Source().api(b).replace("required: true", "required: " + name).replace("deprecated: true", "deprecated: !%s" % name)
        for v in (True, False):
            c = copy.deepcopy(b)
            e = c[3][1][0]["entries"]
            for l in (e[0], e[1][1][4], e[1][1][5][1][0][2][0]["entries"][0], e[1][1][5][1][0][2][0]["entries"][1][1][1]):
                l[1][2]["props"][1] = ("required", v)
            e[1][1][3] = ("deprecated", not v)
            add("flag %s %s" % (name, v), "let %s = %s;" % (name, str(v).lower()), "let doc: Opg = %s;", text, c)
    # locals named after the properties, assigned in every way
    groups = [("info", ("title", "version", "description")), ("http", ("bearer_format", "description", "scheme")), ("apiKey", ("name", "description", "parameter_in")),
              ("op", ("summary", "operation_id", "description")), ("param", ("name", "description", "required"))]
    for group, names in groups:
        lets = "".join('let %s = "local %s";\n' % (n, n) for n in names)
        for pick in itertools.product(names, repeat=3):
            for order in itertools.permutations(range(3)):
                t = [local(n, "local " + n) for n in pick]
                if group == "info":
                    ps = [("title", t[0]), ("version", t[1]), ("description", t[2])]
                    a = [("info", [ps[i] for i in order])]
                elif group == "http":
                    ps = [("scheme", "Bearer"), ("bearer_format", t[0]), ("description", t[1])]
                    a = [("security_schemes", [("http", "h", [ps[i] for i in order])])]
                elif group == "apiKey":
                    ps = [("name", t[0]), ("description", t[1]), ("parameter_in", "Query")]
                    a = [("security_schemes", [("apiKey", t[2], [ps[i] for i in order])])]
                elif group == "op":
                    ps = [("summary", t[0]), ("operationId", t[1]), ("description", t[2])]
                    a = [("paths", [dict(segs=[("lit", "p")], entries=[("GET", [ps[i] for i in order])])])]
                else:
                    ps = [("description", t[0]), ("required", True), ("deprecated", True)]
                    a = [("paths", [dict(segs=[("lit", "p")], entries=[("GET", [("parameters", [dict(at="header", name=t[1], props=[ps[i] for i in order]),
                                                                                                 dict(at="query", name="zz", ty=U8, props=[ps[i] for i in order])])])])])]
                used = "".join("let _ = %s;" % n for n in names)
                add("%s of %s in order %s" % (group, " ".join(pick), order), lets + used, "let doc: Opg = %s;", Source().api(a), a)
    # servers and security schemes named by locals
    for name in LOCALS:
        api.VARS[name] = (None, {"type": "http", "scheme": "basic"})
        a = [("servers", [(local(name, "vv"), None), (local(name, "vv"), local(name, "vv"))])]
        add("server of local %s" % name, 'let %s = "vv";' % name, "let doc: Opg = %s;", Source().api(a), a)
        scheme = "let %s = HttpSecurityScheme::Basic { description: None };" % name
        alts = [[("var", name, None)], [("var", name, ["r"]), ("lit", "other", None)]]
        op = ("paths", [dict(segs=[("lit", "p")], entries=[("GET", [("security", alts)])])])
        for label, a in (("mentioned", [op]), ("declared", [("security_schemes", [("var", name)])]), ("both", [("security_schemes", [("var", name)]), op])):
            add("security of local %s, %s" % (name, label), scheme, "let doc: Opg = %s;", Source().api(a), a)
    # the user's own types, functions and constants
    screaming, uppers, lowers = scan("opg/src/macros.rs")
    for name in UPPER + MODELS + tuple(n for n in uppers if n not in UPPER + MODELS):
        ty = D(Decl(name=name, fields=[Field(name="q", ty=U8)]))
        own = "#[derive(serde::Serialize, opg::OpgModel)] pub struct %s { pub q: u8 }\nimpl %s { pub const TEXT: &'static str = \"vv\"; pub fn text() -> &'static str { \"vv\" } }\n" % (name, name)
        res = ("resp", 200, None, "type", ty)
        ops = [("body", ("body", ty)), ("schema", ("bodyx", [("schema", ty), ("description", L("d"))])), ("response", res), ("text", ("resp", 201, L("d"), "type", ty)),
               ("query", ("parameters", [dict(at="query", name="qq", ty=ty, props=None), dict(at="query", name="rr", ty=ty, props=[("description", L("d"))])])),
               ("header", ("parameters", [dict(at="header", name=L("hh"), props=[("schema", ty)])])),
               ("callback", ("callbacks", [("id", "cb", [dict(segs=[("lit", "c"), ("named", "x", ty)], entries=[("GET", [res])])])]))]
        apis = [(l, [("paths", [dict(segs=[("lit", "p")], entries=[("GET", [o])])])]) for l, o in ops]
        apis += [("path type", [("paths", [dict(segs=[("lit", "p"), ("type", name, ty)], entries=[])])]), ("path name", [("paths", [dict(segs=[("lit", "p"), ("named", "x", ty)], entries=[])])]),
                 ("all", [("paths", [dict(segs=[("lit", "p"), ("type", name, ty)], entries=[("GET", [o for l, o in ops if l != "body"])])])])]
        for label, a in apis:
            for imp, pre in (("use opg::*;", ""), ("", "opg::"), ("use opg::describe_api;", "")):
                raw("%s as %s by %s" % (name, label, imp or pre), imp, own, "let doc = %s%s;" % (pre, Source().api(a)), a)
        for e in ("%s::TEXT" % name, "%s::text()" % name):
            a = everything(lambda p: ("expr", e, "vv"))
            raw("%s everywhere" % e, "use crate::prelude::Leaf;", own, "let doc = opg::%s;" % Source().api(a), a)
            raw("%s everywhere, imported" % e, "use crate::prelude::Leaf; use opg::*;", own, "let doc = %s;" % Source().api(a), a)
    for name in LOCALS + LOWER + ("text", "get", "insert", "push", "to_string", "into", "clone", "extract", "models", "macros", "http", "default", "new") + tuple(lowers):
        if name in ("opg", "self_") or name in TAKEN and name != "http":
            continue
        for label, own, e in (("function", "pub fn %s() -> &'static str { \"vv\" }", "%s()"), ("module", "pub mod %s { pub const TEXT: &str = \"vv\"; }", "%s::TEXT"),
                              ("macro", "macro_rules! %s { () => { \"vv\" } }", "%s!()")):
            if name == "format" and label == "macro":
                continue
            a = everything(lambda p: ("expr", e % name, "vv"))
            raw("%s %s everywhere" % (label, name), "use crate::prelude::Leaf;", own % name, "let doc = opg::%s;" % Source().api(a), a)
    for name in ("TEXT", "NAME", "DEFAULT", "VALUE", "RESULT", "PATH", "T", "X", "A", "VERSION", "TITLE", "DESCRIPTION", "GET", "SCHEMA") + tuple(screaming):
        for label, own in (("const", "pub const %s: &str = \"vv\";"), ("static", "pub static %s: &str = \"vv\";")):
            a = everything(lambda p: ("expr", name, "vv"))
            raw("%s %s everywhere" % (label, name), "use crate::prelude::Leaf;", own % name, "let doc = opg::%s;" % Source().api(a), a)
    # surroundings, and control flow from within
    bodies = [("everything", everything(lambda p: L("lit " + p))), ("info", [("info", [("title", L("t"))])]), ("paths", everything(lambda p: L("x"))[3:]), ("tags", [("tags", [("a", None), ("b", L("d"))])])]
    for sl, s in SURROUNDINGS:
        for bl, a in bodies:
            for tr in (False, True):
                add("%s in %s %s" % (bl, sl, tr), "", s, Source(tr).api(a), a)
                if sl not in ("macro",):
                    add("%s in %s by path %s" % (bl, sl, tr), "", s, "opg::" + Source(tr).api(a), a)
                    add("%s in %s by root path %s" % (bl, sl, tr), "", s, "::opg::" + Source(tr).api(a), a)
    for p in sorted({"title", "version", "description", "tag", "bearer_format", "key", "name", "header", "summary", "operation_id"}):
        for label, e in (("?", 'Some("vv")?'), ("?2", 'text(true)?'), ("block", '{ let z = "vv"; z }'), ("if", 'if true { "vv" } else { return None }'), ("match", 'match 1 { 1 => "vv", _ => return None }'),
                         ("format", 'format!("{}{}", "v", "v")'), ("const", "VV"), ("char", "'v'"), ("number", "1 + 1"), ("nested", 'describe_api! { info: { title: "vv" } }.info.title'), ("closure", '(|| "vv")()'),
                         ("concat", 'concat!("v", "v")'), ("index", '["vv"][0]'), ("deref", '*&"vv"'), ("cast", '1u8 as u16'), ("method", '"vv".trim()')):
            if label in ("char", "number", "cast", "format", "nested"):
                e = "&(%s)" % e
            value = {"char": "v", "number": "2", "cast": "1"}.get(label, "vv")
            a = everything(lambda q: ("expr", e, value) if q == p else L("lit " + q))
            add("%s as %s" % (label, p), 'const VV: &str = "vv"; let _ = VV; fn text(x: bool) -> Option<&\'static str> { if x { Some("vv") } else { None } } let _ = text;',
                "fn f() -> Option<Opg> { const VV: &str = \"vv\"; let _ = VV; fn text(x: bool) -> Option<&'static str> { if x { Some(\"vv\") } else { None } } let _ = text; Some(%s) } let doc = f().unwrap();", Source().api(a), a)
    return out


def check(tier, t0):
    deep = tier == "thorough"
    sp = space(tier)
    apis = api_cases(deep)
    seen, unique = set(), []
    for c in apis:
        if c.items not in seen:
            seen.add(c.items)
            unique.append(c)
    types = {"String", "()"}
    for c in unique:
        if not c.meta.get("named"):
            api.collect(c.expect, types)
    tcase = api.type_case(sorted(types))
    names = sorted(set(UPPER + MODELS) | set(scan("opg/src/macros.rs")[1]))
    tcase.items += "pub mod named { %s }" % "\n".join("#[derive(serde::Serialize, opg::OpgModel)] pub struct %s { pub q: u8 }" % n for n in names)
    tcase.body += "\n".join("vsupport::mention::<named::%s>(o, %s, false, Default::default());" % (n, m.q(n)) for n in names)
    cases = sp.cases + unique + [tcase]
    results, violations = core.build_and_run("C25", cases, prelude=api.PRELUDE, deps=("serde_repr", "uuid"), opg_features=("uuid",))
    outcomes = 0
    if results:
        vs, outcomes, _ = g.compare(sp.cases, results, None)
        violations += vs
        vs, n = api.compare(unique + [tcase], results)
        violations += vs
        outcomes += n
    cov = {"states": len(cases), "transitions": sp.transitions + len(unique), "traces_validated_against_impl": len(results), "distinct_outcomes": outcomes, "exhaustive": True,
           "bounds": {"places": len(PLACES), "names": len(UPPER) + len(LOWER) + len(MODELS), "local names": len(LOCALS), "surroundings": len(SURROUNDINGS)},
           "samples": g.samples(sp.cases, results)}
    return core.finish("C25", tier, t0, cov, violations,
                       ["names of the standard prelude, and the crate name opg, keep their meaning", "items of the user are named in the usual case: a lower-case constant or unit struct shadows any local variable"])
