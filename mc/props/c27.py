"""Descriptions written by hand take part like derived ones."""
import itertools
import re

import core
import derive as g
import model as m
from derive import PAL
from model import D, Decl, Field, M, O, STR, U8, V, Variant, W
from props.c07 import CTX1, KINDS, container

HAND = """#[derive(serde::Serialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct %(name)s;
impl opg::OpgModel for %(name)s {
    fn get_schema(cx: &mut opg::Components) -> opg::Model { <of_%(lower)s::%(name)s as opg::OpgModel>::get_schema(cx) }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { %(title)s }
}
pub mod of_%(lower)s { use super::*;
%(derived)s
}
"""
# as above, with an own way of being referred to that does what the default does
OWN = HAND.replace("fn type_name", """fn select_reference(cx: &mut opg::Components, inline: bool, params: &opg::ContextParams) -> opg::ModelReference {
        match <Self as opg::OpgModel>::type_name() {
            Some(name) if !inline => opg::ModelReference::Link(name.into_owned()),
            _ => opg::ModelReference::Inline(<Self as opg::OpgModel>::get_schema_with_params(cx, params)),
        }
    }
    fn get_schema_with_params(cx: &mut opg::Components, params: &opg::ContextParams) -> opg::Model { Self::get_schema(cx).apply_params(params) }
    fn type_name""")


def prelude(template, spelling='Some("%s".into())'):
    """The shared types, each described by hand; the schema itself is the derive's (other properties decide it)."""
    out = [g.USES]
    for d in g.SHARED:
        title = "None" if d.inline else spelling % d.name
        out.append(template % {"name": d.name, "lower": d.name.lower(), "title": title, "derived": m.render(d)})
    return "\n".join(out)


# a name that is only known at run time
COMPUTED = 'Some(["%s", ""].concat().into())'
# names which no Rust type has
TITLES = ["Page", "page", "Page_of_T", "Page<T>", "a/b c", "Page.v1", "é", "Leaf2", "object", "u8", "#/components/schemas/Page"]
NAMES = [n for n, t in g.PALETTE if t[0] == "d"]
ATTRS = [("plain", {}), ("inline", {"inline": True}), ("nullable", {"nullable": True}), ("desc", {"desc": "text"}), ("format", {"format": "ff"}), ("example", {"example": "ee"}), ("optional", {"optional": True}),
         ("inline nullable", {"inline": True, "nullable": True}), ("inline desc", {"inline": True, "desc": "text"}), ("nullable desc", {"nullable": True, "desc": "text"}),
         ("all", {"inline": True, "nullable": True, "desc": "text", "format": "ff", "example": "ee"})]


def space(tier):
    deep = tier == "thorough"
    sp = g.Space()
    for n in NAMES if tier != "own" else ("leaf", "inl", "unt"):
        for cn, c in CTX1 + g.contexts(deep):
            sp.add("%s %s" % (cn, n), c(PAL[n]), check_values=False)
            for (cn2, c2) in CTX1 if deep or n in ("leaf", "inl", "unt") else ():
                sp.add("%s<%s %s>" % (cn2, cn, n), c2(c(PAL[n])), ndev=2, check_values=False)
        for kind in KINDS:
            for cn, c in CTX1 if deep or n in ("leaf", "inl", "unt") else CTX1[:4]:
                for al, kw in ATTRS:
                    if al == "optional" and not (kind == "struct" or kind.endswith(".struct")):
                        continue
                    sp.add_decl("%s<%s %s %s>" % (kind, al, cn, n), container(kind, c(PAL[n]), **kw), 2, check_values=False)
            for al, kw in (("inline", {"inline": True}), ("nullable", {"nullable": True}), ("desc", {"desc": "text"})):
                d = container(kind, PAL[n])
                for k, v in kw.items():
                    setattr(d, k, v)
                sp.add_decl("%s %s<%s>" % (al, kind, n), d, 2, check_values=False)
    # two of them
    for a, b in itertools.product(NAMES, NAMES) if tier != "own" else ():
        for kind in ("struct", "tuple", "external.tuple", "adjacent.struct", "untagged.struct", "internal.struct"):
            d = container(kind, PAL[a])
            fs = d.fields if d.kind != "enum" else d.variants[0].fields
            if len(fs) > 1:
                fs[1].ty = PAL[b]
            else:
                fs.append(Field(name="b", ty=PAL[b]))
            sp.add_decl("%s<%s, %s>" % (kind, a, b), d, 2, check_values=False)
    return sp


# ------------------------------------------------ generic, recursive, mutually recursive

GENERIC = """pub struct Page<T>(pub T);
impl<T: opg::OpgModel> opg::OpgModel for Page<T> {
    fn get_schema(cx: &mut opg::Components) -> opg::Model {
        let items = cx.mention_schema::<Vec<T>>(false, &Default::default());
        let next = cx.mention_schema::<Option<T>>(%s, &Default::default());
        let mut object = opg::ModelObject::default();
        object.add_property("items".to_owned(), items, true).unwrap();
        object.add_property("next".to_owned(), next, false).unwrap();
        opg::Model { description: None, data: opg::ModelData::Single(opg::ModelType { nullable: false, type_description: opg::ModelTypeDescription::Object(object) }) }
    }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { %s }
}
"""
NODE = """pub struct Node;
impl opg::OpgModel for Node {
    fn get_schema(cx: &mut opg::Components) -> opg::Model {
        let mut object = opg::ModelObject::default();
        object.add_property("%(f)s".to_owned(), cx.mention_schema::<%(t)s>(false, &Default::default()), true).unwrap();
        opg::Model { description: None, data: opg::ModelData::Single(opg::ModelType { nullable: false, type_description: opg::ModelTypeDescription::Object(object) }) }
    }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { Some("Node".into()) }
}
"""


def more(sp, deep):
    wraps = CTX1 + (g.contexts(False) if deep else [])
    for n, t in g.PALETTE:
        for inl in (False, True):
            for title in ("Page", None):
                own = Decl(name="Page", inline=title is None, fields=[Field(name="items", ty=V(t)), Field(name="next", ty=O(t), inline=inl, optional=True)])
                sub = "Page<%s>" % m.rust(t)
                src = GENERIC % (str(inl).lower(), 'Some("Page".into())' if title else "None")
                for cn, c in CTX1:
                    exp = c(D(own))
                    body = "vsupport::observe::<%s>(o);" % m.rust(c(("raw", sub)))
                    sp.put("generic %s %s %s of %s" % (cn, title, inl, n), src, body, exp)
                    if title:
                        sp.put("computed generic %s %s of %s" % (cn, inl, n), GENERIC % (str(inl).lower(), COMPUTED % title), body, exp)
                for kind in KINDS if n in ("u8", "leaf", "unt", "inl", "opt_leaf") else ("struct",):
                    d = container(kind, ("raw", sub))
                    exp = container(kind, D(own))
                    if g.valid(exp):
                        text = re.sub(r", serde::Serialize|, serde_repr::Serialize_repr", "", m.render(d, True))
                        sp.put("%s of generic %s %s of %s" % (kind, title, inl, n), src + text, "vsupport::observe::<Subj>(o);", D(exp))
    for title in TITLES:
        for spelling in ('Some("%s".into())', COMPUTED):
            for n in ("u8", "leaf", "unt"):
                own = Decl(name=title, fields=[Field(name="items", ty=V(PAL[n])), Field(name="next", ty=O(PAL[n]), optional=True)])
                src = GENERIC % ("false", spelling % title)
                sub = "Page<%s>" % m.rust(PAL[n])
                for cn, c in CTX1:
                    sp.put("named %s %s of %s" % (title, cn, n), src, "vsupport::observe::<%s>(o);" % m.rust(c(("raw", sub))), c(D(own)))
                for kind in KINDS:
                    for al, kw in ATTRS:
                        if al == "optional" and not (kind == "struct" or kind.endswith(".struct")):
                            continue
                        exp = container(kind, D(own), **kw)
                        if g.valid(exp):
                            text = re.sub(r", serde::Serialize|, serde_repr::Serialize_repr", "", m.render(container(kind, ("raw", sub), **kw), True))
                            sp.put("%s of named %s %s of %s" % (kind, title, al, n), src + text, "vsupport::observe::<Subj>(o);", D(exp))
    for (cn, c), (cn2, c2) in itertools.product(wraps, CTX1):
        own = Decl(name="Node")
        own.fields = [Field(name="next", ty=c(D(own)))]
        text = NODE % {"f": "next", "t": m.rust(c(("raw", "Node"))).replace("'static ", "'static ")}
        for text in (text, text.replace('"Node".into()', '["No", "de"].concat().into()')):
            sp.put("recursive %s, %s" % (cn, cn2), text, "vsupport::observe::<%s>(o);" % m.rust(c2(("raw", "Node"))), c2(D(own)))
        for kind in ("struct", "adjacent.newtype", "external.struct", "untagged.tuple"):
            # a derived type and one by hand which mention each other
            own = Decl(name="Node")
            der = container(kind, c2(D(own)))
            own.fields = [Field(name="next", ty=c(D(der)))]
            text = NODE % {"f": "next", "t": m.rust(c(D(der)))} + m.render(container(kind, c2(("raw", "Node"))), True)
            text = re.sub(r", serde::Serialize|, serde_repr::Serialize_repr", "", text)
            sp.put("mutual %s %s, %s" % (kind, cn, cn2), text, "vsupport::observe::<Subj>(o);", D(der))
            sp.put("mutual %s %s, %s from the hand" % (kind, cn, cn2), text, "vsupport::observe::<Node>(o);", D(own))


    # a trait object
    for title in ("Shape", None):
        own = Decl(name="Shape", inline=title is None, fields=[Field(name="area", ty=U8)])
        for bound in ("", " + Send", " + Send + Sync"):
            obj = "dyn Shape%s" % bound
            src = ("pub trait Shape {}\nimpl opg::OpgModel for %s {\n    fn get_schema(_: &mut opg::Components) -> opg::Model { opg::describe_type!(object => { properties: { area[required]: (integer => { format: \"uint8\" }) } }) }\n"
                   "    fn type_name() -> Option<std::borrow::Cow<'static, str>> { %s }\n}\n") % (obj, 'Some("Shape".into())' if title else "None")
            for w, ptr in (("Box", "Box<%s>"), ("Rc", "std::rc::Rc<%s>"), ("Arc", "std::sync::Arc<%s>"), ("ref", "&'static (%s)")):
                t = ("raw", ptr % obj)
                for cn, c in CTX1:
                    if cn in ("Box", "&", "Arc"):
                        continue
                    sp.put("trait object%s %s in %s %s" % (bound, title, w, cn), src, "vsupport::observe::<%s>(o);" % m.rust(c(t)), c(W(w, D(own))))
                    for kind in KINDS:
                        exp = container(kind, c(W(w, D(own))))
                        if g.valid(exp):
                            text = re.sub(r", serde::Serialize|, serde_repr::Serialize_repr", "", m.render(container(kind, c(t)), True))
                            sp.put("%s of trait object%s %s in %s %s" % (kind, bound, title, w, cn), src + text, "vsupport::observe::<Subj>(o);", D(exp))


def put(sp, label, items, body, expect):
    sp.transitions += 3
    if (items, body) not in sp.seen:
        sp.seen[(items, body)] = True
        sp.cases.append(core.Case(label, items, body, expect=expect, meta={"decls": [], "values": []}))


def check(tier, t0):
    deep = tier == "thorough"
    sp = space(tier)
    other = g.Space()
    other.put = lambda *a: put(other, *a)
    more(other, deep)
    results, violations, outcomes, validated, states, transitions = {}, [], 0, 0, 0, 0
    for tag, space_, pre in (("hand", sp, prelude(HAND)), ("own", space("own"), prelude(OWN)), ("computed", space("own"), prelude(HAND, COMPUTED)), ("more", other, g.PRELUDE)):
        rs, vs = core.build_and_run("C27", space_.cases, prelude=pre, deps=("serde_repr",), tag=tag)
        violations += vs
        states += len(space_.cases)
        transitions += space_.transitions
        validated += len(rs)
        if rs:
            vs, n, _ = g.compare(space_.cases, rs, None)
            violations += vs
            outcomes += n
        if tag == "hand":
            results = rs
    cov = {"states": states, "transitions": transitions, "traces_validated_against_impl": validated, "distinct_outcomes": outcomes, "exhaustive": True,
           "bounds": {"types by hand": len(g.SHARED), "containers": len(KINDS), "type constructors": len(CTX1) + len(g.contexts(deep)), "attributes": len(ATTRS)}, "samples": g.samples(sp.cases, results)}
    return core.finish("C27", tier, t0, cov, violations, ["a description by hand gives no other type's name"])
