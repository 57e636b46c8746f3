"""API descriptions reproduce parameters, bodies and responses."""
import itertools

import api
import model as m
from api import CONST, L
from derive import LEAF, LEAFD, NT, PALETTE
from model import D, O, P, STR, V, W

PATHS = [(n, t) for n, t in PALETTE if m.rust(t)[0] not in "([&"]
PATHS += [("opt_opt", O(O(D(LEAF)))), ("boxslice", W("Box", V(P("u8"), "slice"))), ("i64", P("i64")), ("f32", P("f32")), ("map_opt", m.M(O(D(NT))))]


def sequences(items, upto):
    for n in range(0, upto + 1):
        yield from itertools.permutations(items, n)


def unique(ps):
    """several assignments of one property are not one description"""
    ks = [k for k, *_ in ps]
    return len(ks) == len(set(ks))


def header(name, props=None):
    return dict(at="header", name=name if isinstance(name, tuple) else L(name), props=props)


def query(name, ty=STR, props=None):
    return dict(at="query", name=name, ty=ty, props=props)


def place(sp, label, params, where, **kw):
    if where == "path":
        sp.path(label + " @path", [L("p")], [("parameters", params), ("GET", [])], **kw)
    elif where == "param":
        sp.path(label + " @param", [L("p"), ("named", "zz", P("u16"))], [("GET", []), ("parameters", params)], **kw)
    elif where == "op":
        sp.op(label + " @op", [("parameters", params)], **kw)
    elif where == "callback":
        sp.op(label + " @callback", [("callbacks", [("ident", "cb", [dict(segs=[L("c")], entries=[("POST", [("parameters", params)])])])])], **kw)
    elif where == "callback path":
        sp.op(label + " @callback path", [("callbacks", [("lit", "cb", [dict(segs=[L("c")], entries=[("parameters", params), ("PUT", [])])])])], **kw)


PLACES = ("path", "param", "op", "callback", "callback path")
PROPS = [("description", L("pd")), ("required", True), ("required", False), ("deprecated", True), ("deprecated", False), ("schema", D(LEAFD))]


def space(tier):
    deep = tier == "thorough"
    sp = api.ApiSpace()
    # one parameter: every set and order of properties, everywhere
    for kind in ("header", "query"):
        for ps in [None] + list(sequences(PROPS, 4)):
            if ps is not None and not unique(ps):
                continue
            for where in PLACES if ps is None or len(ps) < 3 or deep else ("op", "path"):
                p = header("x-h", None if ps is None else list(ps)) if kind == "header" else query("q", D(LEAF), None if ps is None else list(ps))
                place(sp, "%s %s" % (kind, None if ps is None else " ".join("%s=%s" % (k, v) for k, v in ps)[:80]), [p], where,
                      trailing=len(ps or ()) % 2 == 0, edges=1 + len(ps or ()))
    # every type
    for tn, t in PATHS:
        for where in PLACES:
            place(sp, "query<%s>" % tn, [query("q", t)], where, trailing=False)
            place(sp, "header<%s>" % tn, [header("h", [("schema", t)])], where, trailing=False)
        place(sp, "query<u8 as %s>" % tn, [query("q", m.U8, [("schema", t)])], "op", trailing=True)
        place(sp, "query<%s as u8>" % tn, [query("q", t, [("schema", m.U8)])], "path", trailing=True)
    # names and expressions
    for e in (L("x"), L("X-Request-Id"), L(""), L("with \"quote"), CONST, ("expr", "owned(\"own\")", "own"), ("expr", "1 + 1", "2")):
        for where in PLACES:
            place(sp, "header name %s" % e[1], [header(e)], where, trailing=False)
    for n in ("a", "type", "snake_case", "camelCase", "Q", "r2d2", "self_"):
        for where in PLACES:
            place(sp, "query name " + n, [query(n)], where, trailing=False)
    for e in (CONST, L(""), ("expr", "owned(\"own\")", "own"), ("expr", "1 + 1", "2")):
        for p in (header("h", [("description", e)]), query("q", STR, [("description", e)])):
            place(sp, "description %s" % e[1], [p], "op")
    # several parameters, in one block and in several
    A = [header("b"), header("a", [("description", L("da"))]), query("c"), query("d", D(LEAF), [("required", True)]), query("e", O(D(NT)), [("deprecated", True), ("schema", D(LEAFD))]),
         header("f", [("required", False), ("deprecated", True)]), query("g", V(D(LEAF)), [])]
    for n in (0, 2, 3) if not deep else (0, 2, 3, 4):
        for ps in itertools.permutations(A, n):
            for where in ("path", "op") if n < 3 else ("op",):
                place(sp, "list %s" % "".join(str(A.index(p)) for p in ps), list(ps), where, trailing=n % 2 == 0, edges=n)
            for cut in range(1, n):
                if n < 4 and (n < 3 or deep):
                    sp.op("blocks", [("parameters", list(ps[:cut])), ("summary", L("between")), ("parameters", list(ps[cut:]))], trailing=False, edges=n)
    # the same name in different operations and levels
    for p, q in itertools.product(A, repeat=2):
        same = dict(q, name=p["name"]) if p["at"] == q["at"] else None
        for q2 in [q] + ([same] if same else []):
            sp.path("levels", [L("p")], [("parameters", [p]), ("GET", [("parameters", [q2])])], trailing=False)
            sp.path("operations", [L("p")], [("PUT", [("parameters", [p])]), ("GET", [("parameters", [q2])])], trailing=False)
    # two parameters with one name in different places (recorded finding)
    for where in ("op", "path"):
        place(sp, "same name", [header("x"), query("x")], where, trailing=False, known="same-name-parameters")
        place(sp, "same name reversed", [query("x"), header("x")], where, trailing=False, known="same-name-parameters")
    for p in (header("id"), query("id")):
        sp.path("same name as path parameter", [("named", "id", STR)], [("parameters", [p])], trailing=False, known="same-name-parameters")
    # bodies
    for tn, t in PATHS:
        sp.op("body %s" % tn, [("body", t)], trailing=False)
        sp.op("body {%s}" % tn, [("bodyx", [("schema", t)])], trailing=True)
        sp.op("callback body %s" % tn, [("callbacks", [("ident", "cb", [dict(segs=[L("c")], entries=[("POST", [("body", t)])])])])], trailing=False)
    for t in (D(LEAF), STR, O(D(LEAF)), V(D(LEAF))):
        B = [("schema", t), ("description", L("bd")), ("required", True), ("required", False), ("description", L(""))]
        for ps in sequences(B, 3):
            if unique(ps) and any(k == "schema" for k, _ in ps):
                for outer in ([], [("summary", L("s"))], [("resp", 201, None, "type", D(NT))], [("parameters", [header("h", [("description", L("hd")), ("required", False)])])]):
                    sp.op("body %s" % " ".join("%s=%s" % p for p in ps)[:60], [("bodyx", list(ps))] + outer, trailing=False, edges=len(ps))
                    sp.op("body %s" % " ".join("%s=%s" % p for p in ps)[:60], outer + [("bodyx", list(ps))], trailing=True, edges=len(ps))
    # bodies of several operations are independent
    for a, b in itertools.product(([("schema", STR), ("description", L("x")), ("required", False)], [("schema", D(LEAF))], [("schema", D(LEAF)), ("required", False)]), repeat=2):
        sp.path("bodies", [L("p")], [("POST", [("bodyx", a)]), ("PUT", [("bodyx", b)]), ("PATCH", [("body", STR)])], trailing=False)
    # responses: every status code
    codes = list(range(100, 600)) + [600, 999, 0, 99, 1000, 65535]
    for lo in range(0, len(codes), 10):
        chunk = codes[lo:lo + 10]
        sp.op("codes %d.." % chunk[0], [("resp", c, None, "none", None) for c in chunk], trailing=False, edges=len(chunk))
        sp.op("described codes %d.." % chunk[0], [("resp", c, L("code %d" % c), "none", None) for c in chunk], trailing=False, edges=len(chunk))
    for code in (200, 204, 404, 299):
        for desc in (None, L("custom"), L(""), L("OK")):
            for form in ("none", "unit", "xnone", "xlink"):
                sp.op("response %d %s %s" % (code, desc and desc[1], form), [("resp", code, desc, form, None)])
            for tn, t in PATHS:
                if code == 200 or tn in ("u8", "leaf", "opt_leaf"):
                    sp.op("response %d %s %s" % (code, desc and desc[1], tn), [("resp", code, desc, "type", t)], trailing=desc is not None)
    R = [("resp", 200, None, "type", D(LEAF)), ("resp", 201, L("made"), "type", STR), ("resp", 404, None, "none", None), ("resp", 500, L("oops"), "unit", None),
         ("resp", 204, None, "xnone", None), ("resp", 400, L("bad"), "none", None)]
    for n in (0, 2, 3, 4) if deep else (0, 2, 3):
        for rs in itertools.permutations(R, n):
            sp.op("responses %s" % " ".join(str(r[1]) for r in rs), list(rs), trailing=n % 2 == 0, edges=n)
    # everything together in every order
    E = [("parameters", [header("h"), query("q", D(LEAFD))]), ("body", D(NT)), ("resp", 200, None, "type", D(LEAF)), ("resp", 404, L("gone"), "none", None), ("tags", ["t"])]
    for es in itertools.permutations(E):
        sp.op("operation " + " ".join(e[0] for e in es), list(es), trailing=False, edges=5)
    for ms in itertools.product((0, 1, 2, 3), repeat=2):
        sp.path("two operations", [L("p"), ("named", "id", P("u64"))], [("parameters", [header("common")]), ("GET", [E[ms[0]]]), ("POST", [E[ms[1]]])], trailing=False)
    # every text in every place, every identifier
    for w in m.words(True):
        sp.path("word %r" % w[:40], [L("p")],
                [("parameters", [header(w, [("description", L(w))]), query("q_", STR, [("description", L(w))])]),
                 ("POST", [("parameters", [header(w), query("q", D(LEAF), [("description", ("expr", "owned(%s)" % m.q(w), w))])]),
                           ("bodyx", [("schema", STR), ("description", L(w))]), ("resp", 200, L(w), "type", D(LEAF)), ("resp", 404, L(w), "none", None)])], trailing=False)
        sp.op("header %r" % w[:40], [("parameters", [header(w, [("schema", D(LEAF))])])], trailing=True)
    for x in m.IDENTS:
        sp.path("ident " + x, [L("p")], [("parameters", [query(x, D(LEAF))]), ("GET", [("parameters", [query(x, STR, [("required", True)]), header("h")])])], trailing=False)
        sp.op("idents " + x, [("parameters", [query("first_", V(STR)), query(x, O(D(LEAF))), query("last_", STR, [])])], trailing=True)
    # sizes
    for n in m.SIZES:
        kinds = [header("h%d" % ((i * 7) % 23), [("description", L("d%d" % i))] if i % 3 else None) if i % 2 else query("q%d" % ((i * 7) % 23), PATHS[i % len(PATHS)][1], [("required", i % 4 == 0)] if i % 3 else None)
                 for i in range(n)]
        for where in PLACES:
            place(sp, "parameters %d" % n, kinds, where, edges=n)
        place(sp, "headers %d" % n, [header("h%d" % (n - i)) for i in range(n)], "op", edges=n)
        place(sp, "queries %d" % n, [query("q%d" % (n - i), PATHS[i % len(PATHS)][1]) for i in range(n)], "op", edges=n)
        sp.op("blocks %d" % n, [("parameters", [k]) for k in kinds], edges=n)
        sp.op("responses %d" % n, [("resp", 200 + 37 * i % 300, L("d%d" % i) if i % 2 else None, ("none", "unit", "type", "xnone")[i % 4], PATHS[i % len(PATHS)][1] if i % 4 == 2 else None) for i in range(n)], edges=n)
        sp.path("operations %d" % n, [L("p")], [(x, [("body", PATHS[(n + i) % len(PATHS)][1]), ("resp", 200, None, "type", PATHS[(2 * n + i) % len(PATHS)][1])]) for i, x in enumerate(["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"][:n])], edges=n)
        sp.add("paths %d" % n, [("paths", [dict(segs=[L("x%d" % i)], entries=[("parameters", [kinds[i]]), ("POST", [("parameters", [kinds[-1 - i]]), ("body", PATHS[i % len(PATHS)][1])])]) for i in range(n)])], edges=n)
    return sp


def check(tier, t0):
    return api.run("C17", tier, t0, space(tier),
                   {"parameter properties": "all sets and orders, 5 places", "parameters": "all orders of up to 3 (4)", "types": len(PATHS), "status codes": "all of 100..=599",
                    "bodies": "all sets and orders of properties", "responses": "all orders of up to 3 (4)", "sizes": "up to 20 of everything", "texts and identifiers": "the vocabulary of the framework, in every place"},
                   ["types in the macro are paths, as its grammar demands"])
