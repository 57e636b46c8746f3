"""API descriptions reproduce info, tags, servers and security."""
import itertools

import api
import model as m
from api import CONST, L
from derive import LEAF
from model import D

OWN = ("expr", "owned(\"own\")", "own")
NUM = ("expr", "1 + 1", "2")


def perms(items, upto=None):
    for n in range(0, (len(items) if upto is None else upto) + 1):
        yield from itertools.permutations(items, n)


def keys_unique(ps):
    ks = [p[0] for p in ps]
    return len(ks) == len(set(ks))


def space(tier):
    deep = tier == "thorough"
    sp = api.ApiSpace()
    # sections: every set in every order
    S = [("info", [("title", L("T")), ("version", L("1.0"))]), ("tags", [("b", None), ("a", L("da"))]), ("servers", [(L("http://s"), None)]),
         ("security_schemes", [("http", "basic", [("scheme", "Basic")]), ("var", "auth_key")]),
         ("paths", [dict(segs=[L("p")], entries=[("GET", [("tags", ["a"]), ("security", [[("var", "auth_key", None), ("lit", "basic", ["r"])], [("var", "auth_bearer", None)]]),
                                                          ("resp", 200, None, "type", D(LEAF))])])])]
    for ss in perms(S):
        if ss:
            sp.add("sections " + " ".join(s[0] for s in ss), list(ss), edges=len(ss))
    # a section written twice adds up
    for k, a, b in (("tags", [("b", None)], [("a", L("d"))]), ("servers", [(L("x"), None)], [(L("y"), L("d"))]),
                    ("security_schemes", [("http", "x", [("scheme", "Basic")])], [("var", "auth_key")]),
                    ("paths", [dict(segs=[L("y")], entries=[])], [dict(segs=[L("x")], entries=[])])):
        sp.add("twice " + k, [(k, a), (k, b)])
        sp.add("twice around " + k, [(k, a), S[0], (k, b)])
    # info
    I = [("title", "t"), ("version", "v"), ("description", "d")]
    for ps in perms(I):
        for forms in itertools.product((0, 1, 2, 3), repeat=len(ps)):
            sp.add("info " + " ".join(p[0] for p in ps), [("info", [(k, (L(s), CONST, OWN, NUM)[f]) for (k, s), f in zip(ps, forms)])], trailing=len(ps) % 2 == 0, edges=1 + len(ps))
    for text in ("", "quote \" back \\ {} ü", "two\nlines"):
        for k, _ in I:
            sp.add("info text", [("info", [(k, L(text))])])
    # tags
    T = [("b", None), ("a", L("da")), ("type", None), ("C", CONST), ("d2", OWN), ("camelCase", L(""))]
    for ts in perms(T, 3 if not deep else 5):
        sp.add("tags " + " ".join(t[0] for t in ts), [("tags", list(ts))], trailing=len(ts) % 2 == 0, edges=1 + len(ts))
    # servers
    V = [(L("http://a"), None), (L("http://b"), L("db")), (("expr", "server_str", "http://str"), None), (("expr", "server_owned", "http://owned"), None),
         (L(""), CONST), (("expr", "server_str", "http://str"), L("d")), (("expr", "server_owned", "http://owned"), CONST)]
    for n in range(0, 4 if not deep else 5):
        for vs in itertools.product(V, repeat=n):
            if sum(1 for u, _ in vs if u[1] == "server_owned") < 2:
                sp.add("servers", [("servers", list(vs))], trailing=n % 2 == 0, edges=1 + n)
    # security schemes: every form of each
    schemes = []
    H = [("scheme", "Bearer"), ("scheme", "Basic"), ("bearer_format", L("JWT")), ("bearer_format", CONST), ("description", L("sd")), ("description", OWN)]
    for ps in perms(H, 3):
        kv = dict(ps)
        if keys_unique(ps) and "scheme" in kv and not (kv["scheme"] == "Basic" and "bearer_format" in kv):
            schemes.append(("http", "h", list(ps)))
    K = [("name", L("X-K")), ("name", CONST), ("parameter_in", "Query"), ("parameter_in", "Header"), ("parameter_in", "Cookie"), ("description", L("kd")), ("description", NUM)]
    for ps in perms(K, 3):
        if keys_unique(ps) and "name" in dict(ps):
            schemes.append(("apiKey", L("k"), list(ps)))
    for nm in (CONST, OWN, L("")):
        schemes.append(("apiKey", nm, [("name", L("n"))]))
    for v in api.VARS:
        schemes.append(("var", v))
    for s in schemes:
        sp.add("scheme %s" % (s,), [("security_schemes", [s])], edges=1 if s[0] == "var" else len(s[2]))
    some = [("http", "hb", [("scheme", "Basic"), ("description", L("d"))]), ("http", "hbearer", [("bearer_format", L("F")), ("scheme", "Bearer")]), ("http", "plain", [("scheme", "Bearer")]),
            ("apiKey", L("ak"), [("name", L("X"))]), ("apiKey", CONST, [("parameter_in", "Query"), ("name", L("Y")), ("description", L("kd"))]),
            ("var", "auth_basic"), ("var", "auth_bearer"), ("var", "auth_key"), ("var", "auth_any")]
    for n in (0, 2, 3):
        for ss in itertools.permutations(some, n):
            sp.add("schemes", [("security_schemes", list(ss))], trailing=n % 2 == 0, edges=1 + n)
    # security of an operation
    items = [(f, n, r) for f, n in (("lit", "one"), ("var", "auth_basic"), ("var", "auth_bearer"), ("lit", "two")) for r in (None, [], ["r1"], ["r1", "r2"])]
    for it in items:
        sp.op("security 1", [("security", [[it]])])
    few = [i for i in items if i[2] in (None, ["r1", "r2"])]
    alts = [[i] for i in few]
    for a, b in itertools.permutations(items, 2):
        if a[1] != b[1]:
            sp.op("security &&", [("security", [[a, b]])], trailing=False, edges=2)
            if a in few and b in few and a[1] in ("one", "auth_basic"):
                alts.append([a, b])
    for a, b in itertools.product(items, repeat=2):
        sp.op("security ,", [("security", [[a], [b]])], trailing=True, edges=2)
    for a, b, c in itertools.permutations(few, 3):
        if len({a[1], b[1], c[1]}) == 3:
            sp.op("security &&&", [("security", [[a, b, c]])], trailing=False, edges=3)
    for n in (2, 3) if deep else (2,):
        for xs in itertools.product(alts if n == 2 else alts[::2], repeat=n):
            sp.op("security alternatives", [("security", list(xs))], trailing=n % 2 == 0, edges=n)
    sp.op("security none", [("security", [])])
    for a, b in itertools.product(few, repeat=2):
        sp.op("security blocks", [("security", [[a]]), ("summary", L("s")), ("security", [[b]])], trailing=False, edges=2)
        sp.path("security of two operations", [L("p")], [("GET", [("security", [[a]])]), ("PUT", [("security", [[b]])])], trailing=False, edges=2)
        sp.op("security in a callback", [("security", [[a]]), ("callbacks", [("ident", "cb", [dict(segs=[L("c")], entries=[("POST", [("security", [[b]])])])])])], trailing=False, edges=2)
    # schemes declared and mentioned, before and after
    for s in some:
        for alt in alts[:8]:
            path = ("paths", [dict(segs=[L("p")], entries=[("GET", [("security", [alt])])])])
            sec = ("security_schemes", [s])
            sp.add("declared and mentioned", [sec, path], trailing=False, edges=2)
            sp.add("mentioned and declared", [path, sec], trailing=False, edges=2)
    # every place of the security among other properties
    others = [("summary", L("s")), ("deprecated", True), ("resp", 200, None, "type", D(LEAF)), ("tags", ["t"])]
    for n in range(0, 4):
        for es in itertools.permutations(others, n):
            for i in range(n + 1):
                sp.op("place", list(es[:i]) + [("security", [[items[2]], [items[4], items[15]]])] + list(es[i:]), trailing=n % 2 == 0)
    # every text in every place, every identifier
    for w in m.words(True):
        sp.add("word %r" % w[:40], [
            ("info", [("title", L(w)), ("version", L(w)), ("description", L(w))]), ("tags", [("a", L(w)), ("b", None)]), ("servers", [(L(w), L(w)), (L("x"), L(w)), (L(w), None)]),
            ("security_schemes", [("http", w, [("scheme", "Bearer"), ("bearer_format", L(w)), ("description", L(w))]), ("http", "basic+" + w, [("scheme", "Basic"), ("description", L(w))]),
                                  ("apiKey", L("key+" + w), [("name", L(w)), ("description", L(w))])]),
            ("paths", [dict(segs=[L("p")], entries=[("GET", [("security", [[("lit", w, [w, "r", w])], [("lit", "l" + w, None), ("lit", w, [])]])])])])], trailing=False)
        sp.add("owned word %r" % w[:40], [("info", [("title", ("expr", "owned(%s)" % m.q(w), w)), ("description", ("expr", "owned(%s)" % m.q(w), w))]),
                                          ("security_schemes", [("apiKey", ("expr", "owned(%s)" % m.q(w), w), [("parameter_in", "Query"), ("name", ("expr", "owned(%s)" % m.q(w), w))])])], trailing=True)
    for x in m.IDENTS:
        sp.add("ident " + x, [("tags", [(x, None), (x + "_", L("d"))])])
        sp.add("idents " + x, [("tags", [("zz", None), (x, CONST), ("aa", None)]), ("paths", [dict(segs=[L("p")], entries=[("GET", [("tags", [x])])])])], trailing=False)
    # sizes
    for n in m.SIZES:
        sp.add("tags %d" % n, [("tags", [("t%d" % ((i * 7) % 23), L("d%d" % i) if i % 3 else None) for i in range(n)])], edges=n)
        sp.add("servers %d" % n, [("servers", [(L("http://%d" % ((i * 7) % 11)), L("d%d" % i) if i % 3 else None) for i in range(n)])], edges=n)
        sp.add("schemes %d" % n, [("security_schemes", [("http", "h%d" % i, [("scheme", ("Basic", "Bearer")[i % 2]), ("description", L("d%d" % i))]) if i % 3 else
                                                        ("apiKey", L("k%d" % i), [("name", L("n%d" % i)), ("parameter_in", ("Query", "Cookie", "Header")[i % 2])]) for i in range(n)])], edges=n)
        sp.op("alternatives %d" % n, [("security", [[("lit", "s%d" % (i % 5), ["r%d" % i] if i % 3 else None)] for i in range(n)])], edges=n)
        sp.op("combination %d" % n, [("security", [[("lit", "s%d" % ((i * 7) % 23), ["r%d" % i] if i % 3 else None) for i in range(n)], [("var", "auth_basic", None)]])], edges=n)
        sp.op("roles %d" % n, [("security", [[("lit", "s", ["r%d" % ((i * 7) % 23) for i in range(n)]), ("var", "auth_key", ["q%d" % (i % 3) for i in range(n)])]])], edges=n)
        sp.op("blocks %d" % n, [("security", [[("lit", "s%d" % (i % 5), ["r%d" % i] if i % 3 else None)]]) for i in range(n)], edges=n)
        for k, item in (("tags", lambda i: ("t%d" % (n - i), None)), ("servers", lambda i: (L("s%d" % (n - i)), None)), ("security_schemes", lambda i: ("http", "s%d" % (n - i), [("scheme", "Basic")]))):
            sp.add("sections %s %d" % (k, n), [(k, [item(i)]) for i in range(n)], edges=n)
    return sp


def check(tier, t0):
    return api.run("C18", tier, t0, space(tier),
                   {"sections": "all sets and orders", "info": "all sets and orders x 4 value forms", "tags": "all orders of up to 3 (5) of 6", "servers": "all lists of up to 3 (4) of 7",
                    "schemes": "all property sets and orders, lists of up to 3 of 9", "security": "all pairs of 16 items, && of up to 3, alternatives of up to 2 (3)", "sizes": "up to 20 of everything", "texts and identifiers": "the vocabulary of the framework, in every place"},
                   ["bearer_format on a basic scheme is outside the description language (OpenAPI has no such member)"])
