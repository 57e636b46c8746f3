"""The table of built-in types, and how containers of them nest."""
import core
import derive as g
import model as m
from derive import PAL
from model import A, M, O, P, TUP, V, W

PLAIN = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "bool", "char", "String", "()"]
ATOMIC = [n for n in m.SCALARS if "atomic" in n]
DT = {"type": "string", "format": "date"}
CHRONO = [("raw", "chrono::NaiveDateTime", DT, ["chrono::NaiveDate::from_ymd_opt(2020, 6, 26).unwrap().and_hms_opt(1, 2, 3).unwrap()"]),
          ("raw", "chrono::NaiveDate", DT, ["chrono::NaiveDate::from_ymd_opt(2020, 6, 26).unwrap()"]),
          ("raw", "chrono::DateTime<chrono::Utc>", DT, ["chrono::DateTime::<chrono::Utc>::default()"]),
          ("raw", "chrono::DateTime<chrono::Local>", DT, ["chrono::DateTime::<chrono::Local>::default()"]),
          ("raw", "chrono::DateTime<chrono::FixedOffset>", DT, ["chrono::DateTime::<chrono::FixedOffset>::default()"])]
PHANTOM = [("raw", "std::marker::PhantomData<%s>" % x, m.NULL, ["std::marker::PhantomData"]) for x in ("u8", "NoModel", "Leaf", "str", "dyn std::fmt::Debug", "Vec<NoModel>", "()")]
UUID = [("raw", "uuid::Uuid", {"type": "string", "format": "uuid"}, ["uuid::Uuid::nil()"])]


def copyable(t):
    if t[0] == "p":
        return t[1] not in ("String", "str") and t not in map(P, ATOMIC)
    if t[0] == "opt":
        return copyable(t[1])
    if t[0] == "arr":
        return copyable(t[2])
    if t[0] == "tup":
        return all(copyable(x) for x in t[1])
    return t[0] == "raw"


def ordered(t):
    """Ord + Hash"""
    if t[0] == "p":
        return t[1] not in ("f32", "f64") and t not in map(P, ATOMIC)
    if t[0] == "w":
        return t[1] not in ("Cell", "RefCell") and ordered(t[2])
    if t[0] == "opt":
        return ordered(t[1])
    if t[0] == "seq":
        return t[1] in ("Vec", "LinkedList", "VecDeque") and ordered(t[2])
    if t[0] == "arr":
        return ordered(t[2])
    if t[0] == "tup":
        return all(ordered(x) for x in t[1])
    return t[0] == "raw"


def has_values(t):
    k = t[0]
    if k == "p":
        return t[1] != "str"
    if k == "w":
        return (t[1] != "Cell" or copyable(t[2])) and has_values(t[2]) and t[2][:2] != ("seq", "slice")
    if k == "opt":
        return has_values(t[1])
    if k == "seq":
        if t[1] == "slice":
            return False
        return has_values(t[2]) and (t[1] not in ("HashSet", "BinaryHeap") or ordered(t[2]))
    if k == "arr":
        return has_values(t[2]) and t[1] <= 32 and (t[1] <= 2 or copyable(t[2]))
    if k == "map":
        return has_values(t[3])
    if k == "tup":
        return all(has_values(x) for x in t[1])
    return True


def unary(const_generics):
    cs = [("%s" % w, lambda t, w=w: W(w, t)) for w in m.WRAP if w != "refa"]
    cs.append(("Option", O))
    cs += [(s, lambda t, s=s: V(t, s)) for s in m.SEQ if s != "slice"]
    for w in ("ref", "Box", "Rc", "Arc"):
        cs.append((w + "[T]", lambda t, w=w: W(w, V(t, "slice"))))
    lens = (1, 2, 32, 33, 0) if const_generics else (1, 2, 32)
    cs += [("[T;%d]" % n, lambda t, n=n: A(n, t)) for n in lens]
    for k in ("HashMap", "BTreeMap"):
        for key in ("String", "u8", "char"):
            cs.append(("%s<%s>" % (k, key), lambda t, k=k, key=key: M(t, k, key)))
    cs.append(("(T,)", lambda t: TUP(t)))
    cs.append(("(T,u8)", lambda t: TUP(t, P("u8"))))
    cs.append(("(String,T)", lambda t: TUP(P("String"), t)))
    return cs


def space(tier, const_generics, chrono=True, uuid=True, small=False):
    deep = tier == "thorough"
    sp = g.Space()
    n = [0]

    def add(t, depth):
        n[0] += 1
        c = sp.add(m.rust(t), t, (), depth, check_values=depth < 6 and has_values(t), extra_body="vsupport::mentions::<%s>(o);" % m.rust(t) if depth < 3 and not small else "")
        return c

    scalars = [P(x) for x in PLAIN + ATOMIC] + (CHRONO if chrono else []) + (UUID if uuid else []) + PHANTOM
    user = [PAL["leaf"], PAL["inl"], PAL["color"], PAL["unt"]]
    un = unary(const_generics)
    add(P("str"), 1)
    add(V(P("u8"), "slice"), 1)
    for w in ("ref", "mut", "Box", "Rc", "Arc"):
        add(W(w, P("str")), 1)
        for _, c in un:
            add(c(W(w, P("str"))), 2)
    for t in scalars + user:
        add(t, 1)
        for _, c in un:
            add(c(t), 2)
    if small:
        return sp
    base2 = [P("u8"), P("String"), P("f64"), P("()")] + user[:2]
    if deep:
        base2 = [P(x) for x in PLAIN] + UUID + user
    for t in base2:
        for _, c1 in un:
            for _, c2 in un:
                add(c2(c1(t)), 3)
    base3 = [P("u8"), PAL["leaf"]]
    rep = un if deep else [x for x in un if x[0] in ("Box", "Option", "Vec", "HashMap<String>", "[T;2]", "(T,u8)")]
    for t in base3:
        for _, c1 in rep:
            for _, c2 in rep:
                for _, c3 in rep:
                    add(c3(c2(c1(t))), 4)
    # tuples: every arity, every position
    for k in range(1, 11):
        rot = [P(PLAIN[i % len(PLAIN)]) for i in range(k)]
        add(TUP(*rot), min(k, 5))
        for i in range(k):
            for x in (P("String"), PAL["leaf"], O(PAL["leaf"]), V(P("f32")), PAL["inl"]):
                ts = [P("u8")] * k
                ts[i] = x
                add(TUP(*ts), min(k, 5))
    for a in scalars if deep else scalars[:16]:
        for b in scalars if deep else scalars[:16]:
            add(TUP(a, b), 2)
    for k in range(0 if const_generics else 1, 66 if const_generics else 33):
        for t in (P("u8"), P("String"), PAL["leaf"], PAL["inl"], O(PAL["leaf"]), V(P("u8")), TUP(P("u8"), P("f64"))):
            add(A(k, t), 1)
    for k in (100, 127, 128, 129, 255, 256, 257, 1000, 65536) if const_generics else ():
        add(A(k, P("u8")), 1)
        add(A(k, PAL["leaf"]), 1)
    # keys of maps are written as strings, whatever they are
    for k in m.MAP:
        for key in ("String", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "char", "bool", "Color"):
            for t in (P("u8"), PAL["leaf"], O(P("String")), PAL["inl"]):
                add(M(t, k, key), 2)
    # long chains of one or two constructors
    for i, (_, c1) in enumerate(un):
        for _, c2 in un if deep else (un[i], un[0], un[7], un[8]):
            t = P("u8")
            for j in range(6):
                t = (c1, c2)[j % 2](t)
            add(t, 6)
    return sp


def check(tier, t0):
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "values_validated": 0,
           "distinct_outcomes": 0, "samples": [], "configurations": [], "exhaustive": True,
           "bounds": {"nesting depth": 3, "tuple arity": 10, "array length": "0..65 and some up to 65536"}}
    violations = []
    for tag, default, feats in (("", True, ("chrono", "uuid")), ("-nd", False, ("chrono", "uuid")), ("-c", True, ("chrono",)), ("-u", True, ("uuid",)),
                                ("-n", True, ()), ("-nd-c", False, ("chrono",)), ("-nd-u", False, ("uuid",)), ("-nd-n", False, ())):
        sp = space(tier, default, "chrono" in feats, "uuid" in feats, len(feats) < 2)
        try:
            results, vs = core.build_and_run("C06", sp.cases, prelude=g.PRELUDE, deps=("serde_repr",) + feats,
                                             opg_features=feats, default_features=default, tag=tag)
        except core.RepoBroken as ex:
            if not tag:
                raise
            # it compiles with everything switched on
            results, vs = {}, [core.Violation("configuration " + tag, "the crate does not compile with%s default features and %s"
                                              % ("" if default else "out", ", ".join(feats) or "no others"), {"compiler": str(ex)})]
        violations += vs
        if results:
            vs, outcomes, nv = g.compare(sp.cases, results, ("description", "example"))
            violations += vs + g.compare_mentions(sp.cases, results, ("description", "example"))
            cov["values_validated"] += nv
            cov["distinct_outcomes"] += outcomes
            cov["samples"] += g.samples(sp.cases, results, 2)
        cov["states"] += len(sp.cases)
        cov["transitions"] += sp.transitions
        cov["traces_validated_against_impl"] += len(results)
        cov["configurations"].append({"default features (const_generics)": default, "features": feats})
    return core.finish("C06", tier, t0, cov, violations,
                       ["JSON is what serde_json::to_value writes", "values of each type: every constructor choice, one deviation at a time"])
