"""API descriptions reproduce declared paths, methods and callbacks."""
import itertools

import api
import model as m
from api import CONST, L, own
from derive import LEAF, NT, PAL
from model import D, O, STR, V

METHODS = ["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"]
UUID = ("raw", "uuid::Uuid", None, [])


def R(name):
    return ("type", name, ("raw", name, None, []))



SEGS = [("lit", "a"), ("lit", "b-c.d"), ("lit", "{x}"), ("lit", ""), ("type", "Leaf", D(LEAF)), ("type", "uuid::Uuid", UUID),
        ("type", "crate::prelude::Nt", D(NT)), ("type", "String", STR), ("named", "n", STR), ("named", "r_id", V(D(LEAF))),
        ("named", "type", O(D(LEAF))), ("named", "Upper", m.P("u64")),
        R("ÉtatCivil"), R("lower"), R("X"), R("crate::prelude::X"), R("LeafD"), R("deep::er::still::Below"), R("crate::prelude::deep::er::still::Below"), R("::std::string::String")]
NAMES = {"Leaf": "leaf", "uuid::Uuid": "uuid", "crate::prelude::Nt": "nt", "String": "string", "ÉtatCivil": "étatCivil", "lower": "lower", "X": "x", "crate::prelude::X": "x", "LeafD": "leafD", "deep::er::still::Below": "below", "crate::prelude::deep::er::still::Below": "below", "::std::string::String": "string"}


def param_names(segs):
    return [NAMES[s[1]] if s[0] == "type" else s[1] for s in segs if s[0] != "lit"]


def distinct(segs):
    ns = param_names(segs)
    return len(ns) == len(set(ns))


P_CYCLE = [STR, D(LEAF), m.P("u64"), O(D(NT)), V(D(LEAF))]
OK = [("resp", 200, None, "none", None)]


def op_id(x):
    return [("operationId", L(x))]


def space(tier):
    deep = tier == "thorough"
    sp = api.ApiSpace()
    # paths of every shape
    for n in range(1, 5 if deep else 4):
        pool = SEGS if n < 3 or deep else SEGS[:1] + SEGS[2:3] + SEGS[4:7] + SEGS[8:11]
        for segs in itertools.product(pool, repeat=n):
            if distinct(segs):
                sp.path("path " + "/".join(s[1] for s in segs), list(segs), [("GET", OK)] if n < 3 else [], trailing=n % 2 == 0, edges=n)
    # every set of methods, every order of up to three
    for n in range(0, 9):
        for ms in itertools.combinations(METHODS, n):
            sp.path("methods " + " ".join(ms), [L("p")], [(x, op_id("id" + x)) for x in ms], trailing=False, edges=max(n, 1))
    for n in (2, 3) if not deep else (2, 3, 4):
        for ms in itertools.permutations(METHODS, n):
            sp.path("methods " + " ".join(ms), [L("p")], [(x, op_id("id" + x)) for x in ms], trailing=True, edges=n)
    # properties of an operation: every subset, every order of up to three (five)
    props = [("summary", L("s")), ("operationId", L("oid")), ("description", L("d")), ("deprecated", True), ("tags", ["one", "two"]),
             ("resp", 200, None, "none", None)]
    for n in range(0, len(props) + 1):
        for ps in (itertools.permutations(props, n) if n <= (3 if not deep else 5) else itertools.combinations(props, n)):
            sp.op("op " + " ".join(p[0] for p in ps), list(ps), trailing=n % 2 == 0, edges=max(n, 1))
    # forms of values
    for k in ("summary", "operationId", "description"):
        for e in (L(""), L("quote \" back \\ {} nl\n"), CONST, own("owned"), ("expr", "concat!(\"a\", \"b\")", "ab"), ("expr", "&(1 + 2)", "3"), ("expr", "&'x'", "x")):
            sp.op("value %s %r" % (k, e[1]), [(k, e)])
        for k2 in ("summary", "operationId", "description"):
            if k != k2:
                sp.op("two %s %s" % (k, k2), [(k, L("first")), (k2, CONST)])
    for b in (True, False):
        for ms in (["GET"], ["GET", "POST"]):
            sp.path("deprecated %s" % b, [L("p")], [(x, [("deprecated", b)]) for x in ms])
    sp.path("deprecated one", [L("p")], [("GET", [("deprecated", True)]), ("POST", [("summary", L("s"))])])
    for n in range(0, 4):
        for ts in itertools.permutations(["b", "a", "type", "camelCase"], n):
            sp.op("tags " + " ".join(ts), [("tags", list(ts))], trailing=n % 2 == 0)
    # entries of a path in every order
    entries = [("summary", "ps"), ("description", "pd"), ("parameters", [dict(at="header", name=L("h"))]), ("GET", op_id("g")), ("POST", op_id("p"))]
    for segs in ([L("x")], [L("x"), ("named", "id", STR)]):
        for n in range(0, 6):
            for es in itertools.permutations(entries, n):
                sp.path("entries %s %s" % (len(segs), " ".join(e[0] for e in es)), segs, list(es), trailing=n % 2 == 1, edges=max(n, 1))
    # several paths, in every order
    P = [dict(segs=[L("b")], entries=[("GET", op_id("b"))]), dict(segs=[L("a")], entries=[("POST", op_id("a"))]),
         dict(segs=[L("a"), ("named", "id", D(LEAF))], entries=[("summary", "with id"), ("GET", OK)]),
         dict(segs=[("type", "Leaf", D(LEAF))], entries=[]), dict(segs=[L("A"), L("a")], entries=[("GET", []), ("PUT", op_id("put"))]),
         dict(segs=[("named", "id", O(D(LEAF)))], entries=[("DELETE", OK)])]
    for n in range(0, 5 if not deep else 7):
        for ps in itertools.permutations(P, n):
            sp.add("paths " + " ".join(str(P.index(p)) for p in ps), [("paths", list(ps))], trailing=n % 2 == 0, edges=max(n, 1))
    # two operations and two paths do not leak into each other
    for a, b in itertools.product(range(len(props)), repeat=2):
        sp.path("leak %d %d" % (a, b), [L("p")], [("GET", [props[a]]), ("PUT", [props[b]])], trailing=False)
        sp.add("leak paths %d %d" % (a, b), [("paths", [dict(segs=[L("p")], entries=[("GET", [props[a]])]),
                                                       dict(segs=[L("q")], entries=[("GET", [props[b]])])])], trailing=False)
    # callbacks
    cb_paths = [dict(segs=[L("u")], entries=[("POST", op_id("cb"))]), dict(segs=[("named", "x", D(LEAF)), L("y")], entries=[("summary", "cs"), ("PUT", OK)]),
                dict(segs=[("type", "Nt", D(NT))], entries=[("parameters", [dict(at="query", name="qq", ty=V(STR))]), ("GET", [])])]
    names = [("ident", "onEvent"), ("lit", "on event"), ("lit", "onEvent"), ("ident", "type")]
    lists = [list(ps) for n in range(0, 4) for ps in itertools.permutations(cb_paths, n)]
    for form, name in names:
        for ps in lists:
            sp.op("callback %s %s %d" % (form, name, len(ps)), [("callbacks", [(form, name, ps)])], edges=len(ps) + 1)
    for (f1, n1), (f2, n2) in itertools.permutations(names, 2):
        if n1 != n2:
            for a, b in itertools.product(lists[:5], repeat=2):
                sp.op("callbacks %s %s" % (n1, n2), [("callbacks", [(f1, n1, a), (f2, n2, b)])], trailing=False, edges=2)
                sp.op("callbacks split %s %s" % (n1, n2), [("callbacks", [(f1, n1, a)]), ("callbacks", [(f2, n2, b)])], trailing=False, edges=2)
    # every place of the callbacks among the other properties, nested callbacks
    cb = ("callbacks", [("ident", "cb", cb_paths[:2])])
    others = [("summary", L("s")), ("deprecated", True), ("resp", 200, None, "type", D(LEAF)), ("body", STR)]
    for n in range(0, 4):
        for es in itertools.permutations(others, n):
            for i in range(n + 1):
                sp.op("place %d %s" % (i, " ".join(e[0] for e in es)), list(es[:i]) + [cb] + list(es[i:]), trailing=n % 2 == 0)
    inner = [("operationId", L("leaf"))]
    for depth in range(1, 5):
        for forms in itertools.product(("ident", "lit"), repeat=depth):
            ops = inner
            for i, f in enumerate(forms):
                ops = [("operationId", L("level%d" % i)), ("callbacks", [(f, "cb%d" % i, [dict(segs=[L("l%d" % i), ("named", "p%d" % i, STR)], entries=[("POST", ops)])])])]
            sp.op("nested " + " ".join(forms), ops, edges=depth)
    # every entry of a callback's path in every order, with and without operations
    for n in range(0, 6):
        for es in itertools.permutations(entries, n):
            for segs in ([L("x")], [L("x"), ("named", "id", STR)]):
                sp.op("callback entries %d %s" % (len(segs), " ".join(e[0] for e in es)),
                      [("callbacks", [("ident", "cb", [dict(segs=segs, entries=list(es)), dict(segs=[L("next")], entries=[])])])], trailing=n % 2 == 0, edges=max(n, 1))
    for n in range(0, 9):
        for ms in itertools.combinations(METHODS, n):
            sp.op("callback methods " + " ".join(ms), [("callbacks", [("lit", "cb", [dict(segs=[L("x")], entries=[(x, op_id("id" + x)) for x in ms])])])], trailing=False, edges=max(n, 1))
    # callbacks in several methods and paths
    for ms in itertools.permutations(METHODS[:4], 2):
        es = [(x, [("callbacks", [("ident", "cb" + x, [dict(segs=[L("u" + x)], entries=[(y, op_id(x + y)) for y in ms])])])]) for x in ms]
        sp.path("callbacks in " + " ".join(ms), [L("p")], es, edges=2)
    # every text in every place, every identifier in every place
    for w in m.words(True):
        cb = ("callbacks", [("lit", w, [dict(segs=[L("cb"), L(w)], entries=[("summary", w), ("PUT", [("description", L(w))])])])])
        sp.path("word %r" % w[:40], [L("s"), L(w), L("t"), ("named", "id", STR), L("e" + w)],
                [("summary", w), ("description", w), ("GET", [("summary", L(w)), ("operationId", L(w)), ("description", L(w)), cb])], trailing=False)
        sp.path("word alone %r" % w[:40], [L(w)], [("GET", [("summary", ("expr", "&owned(%s)" % m.q(w), w))])], trailing=True)
    for x in m.IDENTS:
        cb = ("callbacks", [("ident", x, [dict(segs=[("named", x, STR), L("l")], entries=[("PUT", [("tags", [x])])])])])
        sp.path("ident " + x, [L("s"), ("named", x, D(LEAF))], [("GET", [("tags", [x]), cb])], trailing=False)
        sp.path("idents " + x, [("named", x, O(STR)), ("named", x + "_", V(D(LEAF)))], [("GET", [("tags", ["first", x, "last"])])], trailing=True)
    # sizes
    for n in m.SIZES:
        alt = [L("s%d" % i) if i % 2 else ("named", "p%d" % i, P_CYCLE[i % 5]) for i in range(n)]
        sp.path("segments %d" % n, alt, [("GET", OK)], edges=n)
        sp.path("literal segments %d" % n, [L("s%d" % (i % 3)) for i in range(n)], [], edges=n)
        sp.path("parameters %d" % n, [("named", "p%d" % (n - i), P_CYCLE[i % 5]) for i in range(n)], [("PUT", [])], edges=n)
        sp.op("tags %d" % n, [("tags", ["t%d" % ((i * 7) % n) for i in range(n)])], edges=n)
        sp.op("blocks of tags %d" % n, [("tags", ["t%d" % i]) for i in range(n)], edges=n)
        sp.add("paths %d" % n, [("paths", [dict(segs=[L("x%d" % ((i * 7) % 23)), ("named", "id", P_CYCLE[i % 5])], entries=[(METHODS[i % 8], op_id("o%d" % i))]) for i in range(n)])], edges=n)
        sp.add("sections of paths %d" % n, [("paths", [dict(segs=[L("x%d" % ((i * 7) % 23))], entries=[(METHODS[i % 8], op_id("o%d" % i))])]) for i in range(n)], edges=n)
        sp.op("callbacks %d" % n, [("callbacks", [("ident" if i % 2 else "lit", "cb%d" % ((i * 7) % 23), [dict(segs=[L("u%d" % i)], entries=[("POST", op_id("c%d" % i))])]) for i in range(n)])], edges=n)
        sp.op("callback paths %d" % n, [("callbacks", [("ident", "cb", [dict(segs=[L("u%d" % ((i * 7) % 23))], entries=[("POST", op_id("c%d" % i))]) for i in range(n)])])], edges=n)
    return sp


def check(tier, t0):
    return api.run("C16", tier, t0, space(tier),
                   {"segments": "all sequences up to 3 (4) of 12 forms", "methods": "all sets, orders up to 3", "operation properties": "all sets, orders up to 3 (5)",
                    "paths": "all orders of up to 4 (6)", "callbacks": "up to 2 of up to 3 paths, nested 4 deep", "sizes": "up to 20 of everything", "texts and identifiers": "the vocabulary of the framework, in every place"},
                   ["parameters of one path are named apart (two parameters with one name and place are not expressible in OpenAPI)"])
