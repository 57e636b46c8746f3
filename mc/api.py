"""Abstract syntax of `describe_api!` programs, their Rust source, and the document
a user is entitled to.

  text    ("lit", s) | ("expr", rust, s)
  param   dict(at='header'|'query', name=text|str, ty=type, props=None|[(key, value)])
  path    dict(segs=[('lit', s) | ('type', rust, t) | ('named', n, t)], entries=[...])
  entry   ('summary'|'description', s) | ('parameters', [param]) | (METHOD, [operation entry])
  op      ('summary'|'operationId'|'description', text) | ('deprecated', bool) | ('tags', [s])
          | ('parameters', [param]) | ('callbacks', [(form, name, [path])])
          | ('security', [[(form, name, roles|None)]]) | ('body', type) | ('bodyx', [(key, value)])
          | ('resp', code, text|None, form, type)
  api     [(section, content)]: ('info', [(key, text)]), ('tags', [(name, text|None)]),
          ('servers', [(text, text|None)]), ('security_schemes', [scheme]), ('paths', [path])
  scheme  ('http', name, props) | ('apiKey', text, props) | ('var', name)
"""
import json

import core
import derive as g
import model as m

REASONS = {
    100: "Continue", 101: "Switching Protocols", 102: "Processing", 200: "OK", 201: "Created", 202: "Accepted",
    203: "Non Authoritative Information", 204: "No Content", 205: "Reset Content", 206: "Partial Content",
    207: "Multi-Status", 208: "Already Reported", 226: "IM Used", 300: "Multiple Choices", 301: "Moved Permanently",
    302: "Found", 303: "See Other", 304: "Not Modified", 305: "Use Proxy", 307: "Temporary Redirect",
    308: "Permanent Redirect", 400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden",
    404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable", 407: "Proxy Authentication Required",
    408: "Request Timeout", 409: "Conflict", 410: "Gone", 411: "Length Required", 412: "Precondition Failed",
    413: "Payload Too Large", 414: "URI Too Long", 415: "Unsupported Media Type", 416: "Range Not Satisfiable",
    417: "Expectation Failed", 418: "I'm a teapot", 421: "Misdirected Request", 422: "Unprocessable Entity",
    423: "Locked", 424: "Failed Dependency", 426: "Upgrade Required", 428: "Precondition Required",
    429: "Too Many Requests", 431: "Request Header Fields Too Large", 451: "Unavailable For Legal Reasons",
    500: "Internal Server Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable",
    504: "Gateway Timeout", 505: "HTTP Version Not Supported", 506: "Variant Also Negotiates",
    507: "Insufficient Storage", 508: "Loop Detected", 510: "Not Extended", 511: "Network Authentication Required",
}

# variables in scope of every program: rust, expected serialized scheme
VARS = {
    "auth_basic": ("HttpSecurityScheme::Basic { description: None }", {"type": "http", "scheme": "basic"}),
    "auth_bearer": ("HttpSecurityScheme::Bearer { format: Some(\"JWT\".to_string()), description: Some(\"vd\".to_string()) }",
                    {"type": "http", "scheme": "bearer", "bearerFormat": "JWT", "description": "vd"}),
    "auth_key": ("ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: \"ck\".to_string(), description: None }",
                 {"type": "apiKey", "in": "cookie", "name": "ck"}),
    "auth_any": ("SecurityScheme::Http(HttpSecurityScheme::Basic { description: Some(\"any\".to_string()) })",
                 {"type": "http", "scheme": "basic", "description": "any"}),
}
PRELUDE = g.PRELUDE + """
#[derive(serde::Serialize, OpgModel)]
pub struct ÉtatCivil { pub a: u8 }
#[derive(serde::Serialize, OpgModel)]
pub struct lower { pub a: u8 }
#[derive(serde::Serialize, OpgModel)]
pub struct X(pub u8);
pub mod deep { pub mod er { pub mod still {
#[derive(serde::Serialize, opg::OpgModel)]
pub struct Below(pub u8);
} } }
pub const TEXT: &str = "text of a const";
pub fn owned(s: &str) -> String { s.to_string() }
"""

CONST = ("expr", "TEXT", "text of a const")


def L(s):
    return ("lit", s)


def own(s):
    return ("expr", "&owned(%s)" % m.q(s), s)


def src(e):
    return m.q(e[1]) if e[0] == "lit" else e[1]


def val(e):
    return e[-1]


# ------------------------------------------------------------------- source

def sep(items, style):
    return ", ".join(items) + ("," if items and style else "")


class Source:
    def __init__(self, trailing=False):
        self.tr = trailing

    def block(self, items):
        return "{ " + sep(items, self.tr) + " }"

    def param(self, p):
        head = "(header %s)" % src(p["name"]) if p["at"] == "header" else "(query %s: %s)" % (p["name"], m.rust(p["ty"]))
        if p.get("props") is None:
            return head
        out = []
        for k, v in p["props"]:
            out.append("%s: %s" % (k, m.rust(v) if k == "schema" else src(v) if k == "description" else str(v).lower()))
        return head + ": " + self.block(out)

    def op(self, e):
        k = e[0]
        if k in ("summary", "operationId", "description"):
            return "%s: %s" % (k, src(e[1]))
        if k == "deprecated":
            return "deprecated: " + str(e[1]).lower()
        if k == "tags":
            return "tags: " + self.block(e[1])
        if k == "parameters":
            return "parameters: " + self.block([self.param(p) for p in e[1]])
        if k == "callbacks":
            return "callbacks: " + self.block(["%s: %s" % (m.q(n) if form == "lit" else n, self.block([self.path(p) for p in ps]))
                                               for form, n, ps in e[1]])
        if k == "security":
            return "security: " + self.block([" && ".join(
                (m.q(n) if form == "lit" else n) + ("" if roles is None else "[%s]" % ", ".join(m.q(r) for r in roles))
                for form, n, roles in alt) for alt in e[1]])
        if k == "body":
            return "body: " + m.rust(e[1])
        if k == "bodyx":
            return "body: " + self.block(["%s: %s" % (k2, m.rust(v) if k2 == "schema" else src(v) if k2 == "description" else str(v).lower())
                                          for k2, v in e[1]])
        _, code, desc, form, t = e
        head = str(code) + ("" if desc is None else "(%s)" % src(desc))
        if form == "none":
            return head + ": None"
        if form == "unit":
            return head + ": ()"
        if form == "xnone":
            return head + ": { None }"
        if form == "xlink":
            return head + ": { Some(ModelReference::Link(\"Manual\".to_string())) }"
        return head + ": " + m.rust(t)

    def entry(self, e):
        if e[0] in ("summary", "description"):
            return "%s: %s" % (e[0], m.q(e[1]))
        if e[0] == "parameters":
            return self.op(e)
        return "%s: %s" % (e[0], self.block([self.op(x) for x in e[1]]))

    def path(self, p):
        segs = [m.q(s[1]) if s[0] == "lit" else s[1] if s[0] == "type" else "{ %s: %s }" % (s[1], m.rust(s[2])) for s in p["segs"]]
        return "(%s): %s" % (" / ".join(segs), self.block([self.entry(e) for e in p["entries"]]))

    def scheme(self, s):
        if s[0] == "var":
            return s[1]
        out = []
        for k, v in s[2]:
            out.append("%s: %s" % (k, v if k in ("scheme", "parameter_in") else src(v)))
        return "(%s %s): %s" % (s[0], m.q(s[1]) if s[0] == "http" else src(s[1]), self.block(out))

    def section(self, s):
        k, c = s
        if k == "info":
            items = ["%s: %s" % (a, src(b)) for a, b in c]
        elif k == "tags":
            items = [n if d is None else "%s(%s)" % (n, src(d)) for n, d in c]
        elif k == "servers":
            items = [src(u) if d is None else "%s(%s)" % (src(u), src(d)) for u, d in c]
        elif k == "security_schemes":
            items = [self.scheme(x) for x in c]
        else:
            items = [self.path(x) for x in c]
        return "%s: %s" % (k, self.block(items))

    def api(self, api):
        return "describe_api! { %s }" % sep([self.section(s) for s in api], self.tr)


# ----------------------------------------------------------------- document

class Document:
    """The reference semantics."""

    def __init__(self, types, by_name=False):
        self.by_name = by_name  # the recorded finding: parameters are told apart by name alone
        self.types = types      # what each type's own description is
        self.schemas = {}
        self.schemes = {}

    def ref(self, t):
        r = self.types[m.rust(t)]
        self.schemas.update(r["components"])
        return r["ref"]

    def param(self, p, out):
        if p["at"] == "header":
            name, r = val(p["name"]), {"in": "header", "required": True, "schema": self.ref(m.STR)}
        else:
            name, r = p["name"], {"in": "query", "schema": self.ref(p["ty"])}
        for k, v in p.get("props") or ():
            if k == "description":
                r["description"] = val(v)
            elif k == "schema":
                r["schema"] = self.ref(v)
            elif v:
                r[k] = True
            else:
                r.pop(k, None)
        if self.by_name:
            for k in [k for k in out if k[0] == name]:
                del out[k]
        out[(name, r["in"])] = dict(r, name=name)

    def op(self, entries):
        r = {"responses": {}}
        params = {}
        for e in entries:
            k = e[0]
            if k in ("summary", "operationId", "description"):
                r[k] = val(e[1])
            elif k == "deprecated":
                if e[1]:
                    r[k] = True
            elif k == "tags":
                if e[1]:
                    r.setdefault("tags", []).extend(e[1])
            elif k == "parameters":
                for p in e[1]:
                    self.param(p, params)
            elif k == "callbacks":
                for form, n, ps in e[1]:
                    r.setdefault("callbacks", {})[n] = self.paths(ps)
            elif k == "security":
                for alt in e[1]:
                    r.setdefault("security", []).append({n: list(roles or ()) for _, n, roles in alt})
                    for form, n, _ in alt:
                        if form == "var":
                            self.schemes.setdefault(n, VARS[n][1])
            elif k == "body":
                r["requestBody"] = {"required": True, "description": "", "content": self.content(self.ref(e[1]))}
            elif k == "bodyx":
                b = {"required": True, "description": ""}
                for k2, v in e[1]:
                    if k2 == "schema":
                        b["content"] = self.content(self.ref(v))
                    elif k2 == "description":
                        b["description"] = val(v)
                    else:
                        b["required"] = v
                if not b["required"]:
                    del b["required"]
                r["requestBody"] = b
            else:
                _, code, desc, form, t = e
                a = {"description": val(desc) if desc is not None else REASONS.get(code, "")}
                if form == "unit":
                    a["content"] = self.content(self.ref(m.UNIT))
                elif form == "xlink":
                    a["content"] = self.content({"$ref": "#/components/schemas/Manual"})
                elif form == "type":
                    a["content"] = self.content(self.ref(t))
                r["responses"][str(code)] = a
        if params:
            r["parameters"] = sort_params(params)
        return r

    def content(self, s):
        return {"application/json": {"schema": s}}

    def paths(self, ps):
        out = {}
        for p in ps:
            v, params, text = {}, {}, ""
            for s in p["segs"]:
                if s[0] == "lit":
                    text += "/" + s[1]
                    continue
                name = s[1].rsplit(":", 1)[-1] if s[0] == "type" else s[1]
                if s[0] == "type":
                    name = name[:1].lower() + name[1:]
                text += "/{" + name + "}"
                params[(name, "path")] = {"name": name, "in": "path", "required": True, "schema": self.ref(s[2])}
            for e in p["entries"]:
                if e[0] in ("summary", "description"):
                    v[e[0]] = e[1]
                elif e[0] == "parameters":
                    for x in e[1]:
                        self.param(x, params)
                else:
                    v[e[0].lower()] = self.op(e[1])
            if params:
                v["parameters"] = sort_params(params)
            out[text] = v
        return out

    def scheme(self, s):
        if s[0] == "var":
            self.schemes[s[1]] = VARS[s[1]][1]
            return
        props = dict(s[2])
        if s[0] == "http":
            r = {"type": "http", "scheme": props["scheme"].lower()}
            if "bearer_format" in props:
                r["bearerFormat"] = val(props["bearer_format"])
            name = s[1]
        else:
            r = {"type": "apiKey", "in": props.get("parameter_in", "Header").lower(), "name": val(props["name"])}
            name = val(s[1])
        if "description" in props:
            r["description"] = val(props["description"])
        self.schemes[name] = r

    def api(self, api):
        r = {"openapi": "3.0.3", "info": {"title": "", "version": ""}}
        tags = {}
        for k, c in api:
            if k == "info":
                r["info"].update({a: val(b) for a, b in c})
            elif k == "tags":
                for n, d in c:
                    tags[n] = {"name": n} if d is None else {"name": n, "description": val(d)}
            elif k == "servers":
                for u, d in c:
                    r.setdefault("servers", []).append({"url": val(u)} if d is None else {"url": val(u), "description": val(d)})
            elif k == "security_schemes":
                for s in c:
                    self.scheme(s)
            elif c:
                r.setdefault("paths", {}).update(self.paths(c))
        if tags:
            r["tags"] = [tags[n] for n in sorted(tags)]
        r["components"] = {}
        if self.schemas:
            r["components"]["schemas"] = self.schemas
        if self.schemes:
            r["components"]["securitySchemes"] = self.schemes
        return r


def sort_params(params):
    return [params[k] for k in sorted(params)]


def normalize(doc):
    """What the order of lists means nothing for is sorted; duplicate keys are kept."""
    if isinstance(doc, dict):
        out = {}
        for k, v in doc.items():
            v = normalize(v)
            if k == "parameters" and isinstance(v, list):
                v = sorted(v, key=lambda p: (p.get("name"), p.get("in")))
            out[k] = v
        return out
    if isinstance(doc, list):
        return [normalize(x) for x in doc]
    return doc


def pairs(items):
    out = {}
    for k, v in items:
        if k in out:
            out["duplicate key " + k] = v
        else:
            out[k] = v
    return out


class ApiSpace:
    def __init__(self):
        self.cases = []
        self.seen = set()
        self.transitions = 0

    def add(self, label, api, trailing=None, edges=1, known=None):
        for tr in ((False, True) if trailing is None else (trailing,)):
            text = Source(tr).api(api)
            self.transitions += edges
            if text in self.seen:
                continue
            self.seen.add(text)
            lets = "".join("let %s = %s;\n" % (n, VARS[n][0]) for n in VARS if n in text)
            if "server_owned" in text:
                lets += 'let server_owned = owned("http://owned");\n'
            if "server_str" in text:
                lets += 'let server_str = "http://str";\n'
            body = lets + "let doc: Opg = %s;\no.insert(\"doc\".into(), vsupport::Value::String(vsupport::serde_json::to_string(&doc).unwrap()));" % text
            self.cases.append(core.Case(label + (" ," if tr else ""), "", body, expect=api, meta={"known": known}))

    def path(self, label, segs, entries, **kw):
        self.add(label, [("paths", [dict(segs=segs, entries=entries)])], **kw)

    def op(self, label, entries, **kw):
        self.path(label, [L("p")], [("GET", entries)], **kw)


def order_of(doc, path=""):
    """(place, keys) of every map whose order is observable."""
    out = []
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k == "paths" and isinstance(v, dict):
                out.append((path + "/paths", list(v)))
            if k == "callbacks" and isinstance(v, dict):
                for n, c in v.items():
                    out.append((path + "/callbacks/" + n, list(c)))
            out += order_of(v, path + "/" + k)
    return out


def type_case(types):
    """Observes each type alone: the schemas of types are decided by other properties."""
    return core.Case("types", "", "\n".join("vsupport::mention::<%s>(o, %s, false, Default::default());" % (t, m.q(t)) for t in types), expect=None)


def collect(x, out):
    """The Rust types named anywhere in an API."""
    if isinstance(x, tuple) and x and x[0] in ("p", "w", "opt", "seq", "arr", "map", "tup", "d", "raw") and not (len(x) == 2 and isinstance(x[1], list)):
        out.add(m.rust(x))
    elif isinstance(x, (list, tuple)):
        for y in x:
            collect(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            collect(y, out)


def compare(cases, results):
    out, outcomes = [], set()
    types = [results[c.id] for c in cases if c.expect is None][0]
    cases = [c for c in cases if c.expect is not None]
    for c in cases:
        r = results.get(c.id)
        if r is None or "doc" not in r:
            continue
        act = json.loads(r["doc"], object_pairs_hook=pairs)
        exp = Document(types).api(c.expect)
        outcomes.add(r["doc"])
        order_e, order_a = dict(order_of(exp)), dict(order_of(act))
        ds = g.diff(clean(exp), clean(act))
        if not ds and order_e != order_a:
            ds = ["order of paths: expected %s, got %s" % (order_e, order_a)]
        known = c.meta.get("known")
        if known and g.diff(clean(Document(types, True).api(c.expect)), clean(act)):
            known = None
        if ds:
            out.append(core.Violation(c.name + ("" if known or not c.meta.get("known") else " differently"), "%s: %s" % (c.name, ds[0]), {"differences": ds[:20], "document": act}, c, known))
    return out, len(outcomes)


def clean(doc):
    doc = normalize(doc)
    return canon_schemas(doc)


def canon_schemas(x):
    """Schemas in the canonical form of the model."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k == "schema" and isinstance(v, dict):
                out[k] = m.canon(v)
            elif k == "schemas" and isinstance(v, dict):
                out[k] = {n: m.canon(s) for n, s in v.items()}
            else:
                out[k] = canon_schemas(v)
        return out
    if isinstance(x, list):
        return [canon_schemas(v) for v in x]
    return x


def run(prop, tier, t0, sp, bounds, assumptions, deps=("serde_repr", "uuid")):
    types = {"String", "()"}
    for c in sp.cases:
        collect(c.expect, types)
    sp.cases.append(type_case(sorted(types)))
    results, violations = core.build_and_run(prop, sp.cases, prelude=PRELUDE, deps=deps, opg_features=("uuid",))
    outcomes = 0
    if results:
        vs, outcomes = compare(sp.cases, results)
        violations += vs
    step = max(1, len(sp.cases) // 3)
    cov = {"states": len(sp.cases), "transitions": sp.transitions, "traces_validated_against_impl": len(results),
           "distinct_outcomes": outcomes, "exhaustive": True, "bounds": bounds,
           "samples": [{"input": c.name, "program": c.body, "document": results.get(c.id, {}).get("doc")} for c in sp.cases[::step][:3]]}
    return core.finish(prop, tier, t0, cov, violations, assumptions)
