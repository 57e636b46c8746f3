"""Meaningless API and schema descriptions are rejected at compile time."""
import bisect
import os
import shutil

import core

ITEMS = """#[derive(serde::Serialize, OpgModel)] pub struct Leaf { pub a: u8 }
pub struct NotDescribed;
pub const TEXT: &str = "text";
"""
LETS = "let basic = HttpSecurityScheme::Basic { description: None }; let number = 1; let model = describe_type!(string => {}); let data = describe_type!(string => {}).data;"

# Every position of the grammar: (name, program around its entries, separator, valid entries, wrong entries)
API = "let _doc: Opg = describe_api! { %s };"
SECTION = [
    ("sections", API, ",", ['info: { title: "t" }', "tags: { a }", "paths: {}"],
     ["foo: {}", "foo: { a }", 'Info: { title: "t" }', 'infos: { title: "t" }', 'path: { ("p"): {} }', "components: {}", 'security: { "x" }', 'openapi: { "3" }', 'info: "t"', 'info { title: "t" }',
      '"info": { title: "t" }', "info", "info:", 'info: { title: "t" } tags', "tag: { a }", 'server: { "u" }', "security_scheme: { basic }", "securitySchemes: { basic }", 'version: { "1" }',
      'info: ( title: "t" )', 'info: [ title: "t" ]', 'info = { title: "t" }', "schemas: { Leaf }", "externalDocs: {}", "1: {}", "paths: ()", "title: { \"t\" }", 'servers: "u"', "tags: a"]),
]
INFO = [("info", API % "info: { %s }", ",", ['version: "1"', 'description: TEXT'],
         ['foo: "x"', 'name: "x"', 'Title: "x"', 'summary: "x"', "title", "title:", 'title "x"', 'title = "x"', 'title: "a" "b"', "title: ()", 'contact: "x"', 'license: "x"', 'descriptions: "x"',
          'desc: "x"', 'title: "a", title: "b"', "title: NotDescribed", "title: missing", '"title": "x"', 'termsOfService: "x"', "title: Some(\"x\")", "title: { }", 'title => "x"', "version: ()", "description: ()",
          "description: None::<String>"])]
TAGS = [("tags", API % "tags: { %s }", ",", ["a", 'b("d")'],
         ['"x"', 'x: "d"', 'x("d", "e")', "x()", "x y", "1", "x::y", "x(())", 'x["d"]', 'x{"d"}', "x(missing)", 'x = "d"', 'x("d")("e")', "(x)", "!x", 'x: { description: "d" }'])]
SERVERS = [("servers", API % "servers: { %s }", ",", ['"u"', 'TEXT("d")'],
            ['url: "x"', '"x" "y"', '"x"()', '"x"(1)', "1", "true", "1.5", '"x"("d", "e")', '"x"["d"]', "missing", '"x": {}', '"x"(missing)', '("x")', "number", '"x"(number)', '"x"(("d"))', 'a::b', '&TEXT'])]
HTTP_OK, KEY_OK = ["scheme: Bearer", 'bearer_format: "f"', 'description: "d"'], ['name: "n"', "parameter_in: Query", 'description: "d"']
SCHEMES = [("security schemes", API % "security_schemes: { %s }", ",", ["basic", '(http "h"): { scheme: Basic }', '(apiKey "k"): { name: "n" }'],
            ['"x"', "(http)", '(http "x")', '(http "x"): {}', "(http x): { scheme: Basic }", '(https "x"): { scheme: Basic }', '(oauth2 "x"): { scheme: Basic }', '(Http "x"): { scheme: Basic }', '(http): { scheme: Basic }',
             '(http "x"): { bearer_format: "f" }', '(http "x"): { description: "d" }', '(http "x"): { bearer_format: "f", description: "d" }', '(apiKey): { name: "n" }', '(apiKey "x"): {}', '(apiKey "x")',
             '(apiKey "x"): { description: "d" }', '(apiKey "x"): { parameter_in: Query }', '(apiKey "x"): { parameter_in: Query, description: "d" }', '(apikey "x"): { name: "n" }', '(api_key "x"): { name: "n" }',
             '(openIdConnect "x"): { name: "n" }', "missing", "number", "1", '("x"): { scheme: Basic }', '"x": { scheme: Basic }', 'http "x": { scheme: Basic }', '(http "x"): basic', '(http "x", "y"): { scheme: Basic }',
             "basic: {}", "basic()", "a::b", '(http 1): { scheme: Basic }', "(apiKey ()): { name: \"n\" }", '(http "x") { scheme: Basic }']),
           ("http scheme", API % 'security_schemes: { (http "h"): { %s } }', ",", HTTP_OK,
            ['foo: "x"', 'bearerFormat: "f"', 'format: "f"', 'name: "n"', "parameter_in: Query", "Scheme: Bearer", "scheme: Digest", "scheme: bearer", 'scheme: "bearer"', "scheme", "scheme: Bearer::X", "bearer_format: ()",
             "description: ()", "description", 'description "d"', "in: Header", "bearer_format: missing", "scheme: 1", "type: http"]),
           ("api key scheme", API % 'security_schemes: { (apiKey "k"): { %s } }', ",", KEY_OK,
            ['foo: "x"', "in: Query", "scheme: Basic", 'bearer_format: "f"', "parameter_in: Body", "parameter_in: query", 'parameter_in: "query"', "parameterIn: Query", "name: ()", "name", "description: ()", "Name: \"n\"", "name: missing",
             "parameter_in: 1", "parameter_in: Some"])]
PATHS = [("paths", API % "paths: { %s }", ",", ['("a"): {}', '("b" / { id: u8 }): { GET: { 200: None } }'],
          ['("p")', '"p": {}', "(): {}", '("p" "q"): {}', '("p" { id: u8 }): {}', '(/ "p"): {}', '("p" / / "q"): {}', '("p" / { id }): {}', '("p" / { id: }): {}', '("p" / { "id": u8 }): {}', '("p" / { id: u8, x: u8 }): {}',
           '("p" / { id: NotDescribed }): {}', '("p" / NotDescribed): {}', '("p" / missing): {}', "(1): {}", '("p" / 1): {}', '("p" / { id: &str }): {}', '("p", "q"): {}', '("p"): ()', '("p"): []', '("p") {}', '["p"]: {}',
           '{"p"}: {}', '("p" + "q"): {}', '("p" / (id: u8)): {}', '("p" / {}): {}', '("p" / { id: 1 }): {}', '("p"): "x"', '("p" / { id = u8 }): {}', "p: {}", '("p" / true): {}', '("p" / \'c\'): {}', '("p" / b"x"): {}', '("p" / "q" "r"): {}'])]
ENTRY_OK = ['summary: "s"', 'parameters: { (header "h") }', "GET: { 200: None }"]
ENTRY_BAD = ['foo: "x"', "summary: 1", "summary: true", "summary", "get: { 200: None }", "Get: {}", "FOO: {}", "CONNECT: {}", "LINK: {}", "GET", "GET: ()", "GET {}", 'parameters: { "x" }', "parameters: []", 'parameters: "x"', "tags: { a }",
             'servers: { "u" }', "deprecated: true", "operations: {}", '200: ()', "body: String", 'operationId: "x"', 'Summary: "s"', 'callbacks: {}', 'security: { "x" }', '"GET": {}', "GET: { 200: None } POST: {}", "description: 1.5", "description: ()",
             "METHOD: {}", "GET = {}", 'name: "x"', "GET: { foo: 1 }", "HttpMethod::GET: {}", "query: {}", "GET | POST: {}", "parameters: { }, GET: { foo: \"x\" }", 'summary: b"x"', "summary: 'c'"]
OP_OK = ['summary: "s"', "tags: { a }", "200: String"]
OP_BAD = ['foo: "x"', "foo: String", "foo: { a }", "summary:", "summary", "summary: ()", 'operation_id: "x"', 'operationID: "x"', 'id: "x"', 'deprecated: "yes"', "deprecated: 1", "deprecated", "deprecated: ()", "tags: a", "tags: [a]", 'tag: { a }',
          "tags: { a b }", "parameters: (query a: u8)", "parameters: [(query a: u8)]", 'callbacks: { "x" }', "callbacks: {x}", 'security: "x"', 'security: ["x"]', "body: {}", 'body: { description: "d" }', "body: { required: true }",
          'body: { description: "d", required: false }', "body: NotDescribed", "body: 1", 'body: "x"', "body", "body: (u8, u8)", "body: missing", "200", "200: {}", "200: NotDescribed", "200: missing", '"200": String', "70000: String",
          '200(1): String', '200("a", "b"): String', "2.5: String", "default: String", "response: String", "200: 1", '200: "x"', "200 => String", "200: String String", '200["d"]: String', "true: String", "'c': String", "OK: String", "-200: String",
          "responses: { 200: String }", 'Summary: "s"', "requestBody: String", "request: String", "headers: {}", 'servers: { "u" }', "externalDocs: {}", "description: ()", "operationId: ()", "200(): String", "200: { String }", "200: { 1 }",
          "65536: None", '404(number): None', '404(): None', "query: u8"]
BODY_OK = ["schema: String", 'description: "d"', "required: true"]
BODY_BAD = ["foo: 1", "schemas: String", "schema: NotDescribed", "schema: 1", 'schema: "x"', "schema", "schema: {}", 'required: "x"', "required: 1", "required", "description: 1", "description", "type: String", 'example: "x"', "deprecated: true",
            "schema: (u8, u8)", "schema String", "Schema: String", 'content: "x"', "description: ()", "schema: missing", 'name: "x"']
PARAM_OK = ["(query a: u8)", '(header "h")', '(query b: Leaf): { required: true }']
PARAM_BAD = ["(query x)", '(query "x": u8)', "(query x: NotDescribed)", "(query x: missing)", "(header)", '(header "x": u8)', '(cookie "x")', "(cookie x: u8)", "(path x: u8)", "(body x: u8)", 'header "x"', "(Query x: u8)", '(Header "x")', "query: u8",
             '"x"', "x", "(x: u8)", '("x")', "(query)", "(query: u8)", "(query x: u8, y: u8)", '(header "x", "y")', "(query x: u8): ()", "(query x: u8): required", "(header ())", "(header missing)", "(query x: 1)", "(query x = u8)", '(query x: &str)',
             "(header NotDescribed)", '(header "x") {}', "(query x: u8) (query y: u8)", "query(x: u8)", "[query x: u8]", "(params x: u8)", '(form x: u8)']
PROP_OK = ['description: "d"', "required: true", "deprecated: false", "schema: String"]
PROP_BAD = ["foo: 1", 'name: "x"', 'required: "yes"', "required: 1", "deprecated: 1", "deprecated: ()", 'deprecated: "x"', "schema: NotDescribed", "schema: 1", 'schema: "string"', "description", "description: ()", "required", "in: Query", "parameter_in: Query",
            'example: "x"', "schema: (u8, u8)", "Required: true", "optional: true", "type: u8", "required = true", "schema: missing", "schema: {}", "description: NotDescribed", "nullable: true", 'format: "x"', "default: 1", "required: missing"]
CALL_OK = ['x: { ("p"): {} }', '"y": { ("q"): { GET: { 200: None } } }']
CALL_BAD = ['z: "p"', '(z): { ("p"): {} }', 'z: { "p" }', 'z: { ("p") }', 'z: { ("p"): { FOO: {} } }', '1: { ("p"): {} }', "z", "z: {x}", 'z: { ("p"): { GET: { foo: 1 } } }', 'z: { p: {} }', 'z: ("p"): {}', 'z { ("p"): {} }',
            'z: { ("p"): { tags: { a } } }', 'z: { GET: {} }', "true: { (\"p\"): {} }", 'a::b: { ("p"): {} }', 'z: [("p"): {}]', 'z: { ("p"): { GET: { body: {} } } }', 'z: { ("p"): { GET: { 200: NotDescribed } } }']
SEC_OK = ['"x"', 'basic && "y"', '"z"["r"]']
SEC_BAD = ["1", "a::b", '"u" || "v"', '"u"[role]', '"u"[1]', '"u"("r")', "missing", '("u")', '"u" & "v"', '"u" && ', '&& "u"', '"u" "v"', "number", '"u": []', '"u"[["r"]]', "basic[TEXT]", "basic(TEXT)", '!"u"', "true", "'c'", '"u" && missing', "model"]


def grammar():
    out = SECTION + INFO + TAGS + SERVERS + SCHEMES + PATHS
    path = API % 'paths: { ("p" / { id: u8 }): { %s } }'
    call = API % 'paths: { ("p"): { POST: { callbacks: { cb: { ("c"): { %s } } } } } }'
    for where, p in (("", path), (" in a callback", call)):
        out.append(("path entries" + where, p, ",", ENTRY_OK, ENTRY_BAD))
        out.append(("path parameters" + where, p % "parameters: { %s }", ",", PARAM_OK, PARAM_BAD))
        out.append(("operation" + where, p % "PUT: { %s }", ",", OP_OK, OP_BAD))
        out.append(("body" + where, p % "PUT: { body: { %s } }", ",", BODY_OK, BODY_BAD))
        out.append(("parameters" + where, p % "PUT: { parameters: { %s } }", ",", PARAM_OK, PARAM_BAD))
        for head in ("(header \"h\")", "(query q: u8)"):
            out.append(("properties of %s%s" % (head, where), p % ("PUT: { parameters: { %s: { %%s } } }" % head), ",", PROP_OK, PROP_BAD))
            out.append(("properties of path's %s%s" % (head, where), p % ("parameters: { %s: { %%s } }" % head), ",", PROP_OK, PROP_BAD))
        out.append(("callbacks" + where, p % "PUT: { callbacks: { %s } }", ",", CALL_OK, CALL_BAD))
        out.append(("security" + where, p % "PUT: { security: { %s } }", ",", SEC_OK, SEC_BAD))
    return out


# what has no entries next to it: single schemas
SCHEMAS_OK = ["string => {}", 'string => { description: "d" format: "f" example: "e" variants: ["a", "b"] }', 'number => { format: "f" }', "integer => { example: 1 }", "boolean => { description: \"d\" }",
              "array => { items: (string => {}) }", "object => { properties: {} }", "object => { properties: { a[required]: (string => {}) b: (link => \"L\") } }", "raw_type => { ident: data }"]
SCHEMAS_BAD = ["foo => {}", "strings => {}", "String => {}", "null => {}", "any => {}", "string {}", "string: {}", "string => ()", "string => []", "string", "string =>", "=> {}", "", 'string => { foo: "x" }', 'string => { "d" }', 'string => { variants: "x" }',
               "string => { variants: [a] }", "string => { variants: { \"a\" } }", 'string => { enum: ["a"] }', "string => { description }", "string => { description: }", 'string => { description: "d" description: "d" }',
               'string => { format: "f" format: "f" }', 'string => { nullable: true }', 'number => { variants: ["1"] }', 'integer => { variants: ["1"] }', 'boolean => { format: "f" }', 'boolean => { example: true }', 'boolean => { variants: ["a"] }',
               "array => {}", 'array => { description: "d" }', "array => { items: string }", "array => { items: () }", "array => { items: (foo => {}) }", "array => { items: (string) }", "array => { item: (string => {}) }", "array => { items: [string => {}] }",
               "array => { items: (string => {}) items: (string => {}) }", 'array => { items: (string => {}) format: "f" }', 'array => { items: (string => { foo: "x" }) }', "array => { items: (string => {}) (string => {}) }", "object => {}",
               'object => { description: "d" }', "object => { a: (string => {}) }", "object => { properties: () }", "object => { property: {} }", "object => { properties: { a: string } }", "object => { properties: { a } }",
               "object => { properties: { a[optional]: (string => {}) } }", "object => { properties: { a[]: (string => {}) } }", "object => { properties: { a[required, required]: (string => {}) } }", "object => { properties: { a(required): (string => {}) } }",
               'object => { properties: { "a": (string => {}) } }', "object => { properties: { a: (foo => {}) } }", 'object => { properties: { a: (string => { foo: "x" }) } }', "object => { properties: {} required: [a] }", "object => { properties: { a: () } }",
               "object => { properties: { a[Required]: (string => {}) } }", "object => { properties: { a[required]: (foo => {}) } }", "object => { properties: { a[nullable]: (string => {}) } }", 'object => { properties: { a["required"]: (string => {}) } }',
               "object => { properties: { a[required] } }", "object => { properties: { a[required][required]: (string => {}) } }", "object => { additionalProperties: (string => {}) }", "object => { properties: { a::b: (string => {}) } }",
               "raw_model => missing", "raw_model => number", "raw_model => {}", "raw_type => {}", "raw_type => { ident: missing }", "raw_type => { ident: number }", "raw_type => { ident: model }", 'raw_type => { description: "d" }',
               "raw_type => data", "raw_type => { type: data }", "array => { items: (raw_model => data) }", "array => { items: (link => 1) }", "array => { items: (link => missing) }", "array => { items: (link => number) }", "array => { items: (link) }",
               "array => { items: (link => {}) }", 'link => "L"' if False else "links => \"L\"", "object => { properties: { a: (raw_model => number) } }", "object => { properties: { a: (link => true) } }"]


class Negative:
    def __init__(self, name, text):
        self.name, self.items, self.body, self.lines = name, text, "", None


def build(deep):
    neg, pos, seen = [], [], set()
    for name, around, s, ok, bad in grammar():
        # the valid entries on their own: what is rejected below is rejected for the entry added
        lists = [[]] + [[o] for o in ok] + [ok, ok[::-1]]
        for l in lists:
            for tr in ("", ","):
                t = around % ((s + " ").join(l) + (tr if l else ""))
                complete = not (name.startswith("http scheme") and ok[0] not in l or name.startswith("api key") and ok[0] not in l or name.startswith("body") and ok[0] not in l or name == "sections" and not l
                                or name == "info" and not l)
                if complete:
                    pos.append((name + ": " + t, t))
        for w in bad:
            places = [[w], [w] + ok, ok + [w]] + [ok[:i] + [w] + ok[i:] for i in range(1, len(ok))]
            if deep:
                places += [[o, w] for o in ok] + [[w, o] for o in ok] + [ok[::-1] + [w], [w] + ok[::-1]]
            for i, l in enumerate(places):
                for tr in ("", ","):
                    t = around % ((s + " ").join(l) + tr)
                    if t not in seen:
                        seen.add(t)
                        neg.append(Negative("%s: %s" % (name, t), t))
    wraps = [("%s", "alone"), ("array => { items: (%s) }", "items"), ("object => { properties: { p: (%s) } }", "property"), ("object => { properties: { p: (string => {}) q[required]: (%s) } }", "required property"),
             ("array => { items: (array => { items: (%s) }) }", "nested items"), ("object => { properties: { p: (object => { properties: { q: (%s) } }) } }", "nested property")]
    for w, label in wraps:
        for t in SCHEMAS_OK:
            text = "let _m: Model = describe_type!(%s);" % (w % t)
            pos.append(("schema, %s: %s" % (label, t), text))
        for t in SCHEMAS_BAD:
            text = "let _m: Model = describe_type!(%s);" % (w % t)
            if text not in seen:
                seen.add(text)
                neg.append(Negative("schema, %s: %s" % (label, t), text))
    return neg, pos


def decide(negs):
    """Compiles the programs together, each of which must have an error of its own. The compiler reports errors in phases, so what has none is compiled again without the others, until all that is left compiles."""
    crate = os.path.join(core.WORK, "c26n")
    left, rounds, single = list(negs), 0, False
    while left:
        rounds += 1
        shutil.rmtree(os.path.join(crate, "src"), ignore_errors=True)
        toml = ["[package]", 'name = "vc26n"', 'version = "0.0.0"', 'edition = "2021"', "", "[workspace]", "", "[dependencies]", core.DEPS["opg"] % (core.REPO, ""), core.DEPS["serde"],
                "", "[profile.dev]", "debug = 0", "incremental = false", "", '[profile.dev.package."*"]', "opt-level = 1", ""]
        core.write_if_changed(os.path.join(crate, "Cargo.toml"), "\n".join(toml))
        nfiles = len(left) if single else min(core.JOBS, max(1, len(left) // 20))
        index = {}
        for k in range(nfiles):
            out = ["#![allow(warnings)]", "#![recursion_limit = \"256\"]", "fn main() {}"]
            line = 4
            fname = "src/bin/n%d.rs" % k
            for i in range(k, len(left), nfiles):
                s = "mod m%d { use opg::*;\n%spub fn run() {\n%s\n%s\n} }" % (i, ITEMS, LETS, left[i].items)
                c = s.count("\n") + 1
                index.setdefault(fname, []).append((line, line + c - 1, left[i]))
                out.append(s)
                line += c
            core.write_if_changed(os.path.join(crate, fname), "\n".join(out) + "\n")
        ok, errors, stderr = core.cargo_build(crate, cmd="check")
        hit, foreign = set(), []
        starts = {f: [x[0] for x in v] for f, v in index.items()}
        for target, spots, text in errors:
            inside = False
            if single and target.startswith(crate):
                hit.add(id(index[os.path.relpath(target, crate)][0][2]))
                continue
            for fname, ln, _ in spots:
                if fname not in index:
                    continue
                j = bisect.bisect_right(starts[fname], ln) - 1
                if j >= 0 and index[fname][j][0] <= ln <= index[fname][j][1]:
                    hit.add(id(index[fname][j][2]))
                    inside = True
            if not inside and spots and not target.startswith(crate):
                foreign.append(text)
        if foreign:
            raise core.RepoBroken("the repository does not compile:\n" + "\n".join(foreign)[:3000])
        if not ok and not errors:
            raise core.Infra("build failed with no error message:\n" + stderr[-3000:])
        left = [n for n in left if id(n) not in hit]
        if ok or single:
            break
        single = not hit    # what is left has errors which only name the library: one program at a time
    return [core.Violation("accepted:" + n.name, "accepted without an error: " + n.name, {"program": n.items}, n) for n in left], rounds


def check(tier, t0):
    deep = tier == "thorough"
    neg, pos = build(deep)
    violations, rounds = decide(neg)
    seen, cases = set(), []
    for label, t in pos:
        if t in seen:
            continue
        seen.add(t)
        var = "_doc" if "_doc" in t else "_m"
        cases.append(core.Case(label, "pub mod inner { #![allow(warnings)] use opg::*;\n%spub fn run(o: &mut vsupport::Obs) {\n%s\n%s\no.insert(\"doc\".into(), vsupport::serde_json::to_value(&%s).unwrap());\n} }" % (ITEMS, LETS, t, var),
                               "inner::run(o);"))
    results, vs = core.build_and_run("C26", cases)
    violations += vs
    cov = {"states": len(neg) + len(cases), "transitions": len(neg) + len(cases), "traces_validated_against_impl": len(neg) + len(results), "distinct_outcomes": len({str(r) for r in results.values()}) + 1, "exhaustive": True,
           "bounds": {"positions": len(grammar()), "rejected": len(neg), "accepted": len(cases), "compiler rounds": rounds},
           "samples": [{"input": n.name, "program": n.items} for n in neg[:: max(1, len(neg) // 5)][:5]]}
    return core.finish("C26", tier, t0, cov, violations, ["every error is reported at the program it belongs to"])
