//! Every registry reachable by any history of mentions, manual additions and security
//! schemes (the state graph is closed: no bound on the length of histories), each
//! transition compared with an abstract first-wins registry.
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap, VecDeque};

use opg::*;
use rt::*;

fn obj(props: &[(&str, S)]) -> S {
    S::of(Sd::Obj {
        nullable: false,
        props: props.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
        extra: None,
        required: vec![],
    })
}

fn num() -> S {
    S::of(Sd::Num {
        integer: true,
        nullable: false,
        format: s("uint8"),
        example: None,
    })
}

// ------------------------------------------------- types described by hand

macro_rules! hand {
    ($name:ident, $type_name:expr, |$cx:ident| $body:expr) => {
        struct $name;
        impl OpgModel for $name {
            fn get_schema($cx: &mut Components) -> Model {
                $body
            }
            fn type_name() -> Option<Cow<'static, str>> {
                $type_name.map(Cow::Borrowed)
            }
        }
    };
}

fn with(props: Vec<(&str, ModelReference)>) -> Model {
    let mut o = ModelObject::default();
    for (k, v) in props {
        o.add_property(k.to_string(), v, false).unwrap();
    }
    Model {
        description: None,
        data: ModelData::Single(ModelType {
            nullable: false,
            type_description: ModelTypeDescription::Object(o),
        }),
    }
}

fn m<T: OpgModel>(cx: &mut Components) -> ModelReference {
    cx.mention_schema::<T>(false, &Default::default())
}

fn mi<T: OpgModel>(cx: &mut Components) -> ModelReference {
    cx.mention_schema::<T>(true, &Default::default())
}

// C: a leaf; A mentions C; N mentions A and C; I is anonymous and mentions A;
// A2 is another type called A; R is recursive; P and Q are mutually recursive;
// K embeds C in place; E is the empty name
hand!(TC, Some("C"), |cx| with(vec![("c", m::<u8>(cx))]));
hand!(TA, Some("A"), |cx| with(vec![("x", m::<TC>(cx)), ("y", m::<u8>(cx))]));
hand!(TN, Some("N"), |cx| with(vec![("a", m::<TA>(cx)), ("c", m::<TC>(cx))]));
hand!(TI, None::<&'static str>, |cx| with(vec![("a", m::<TA>(cx))]));
hand!(TA2, Some("A"), |cx| with(vec![("other", m::<TK>(cx))]));
hand!(TR, Some("R"), |cx| with(vec![("r", m::<TR>(cx)), ("c", m::<TC>(cx))]));
hand!(TP, Some("P"), |cx| with(vec![("q", m::<TQ>(cx))]));
hand!(TQ, Some("Q"), |cx| with(vec![("p", m::<TP>(cx))]));
hand!(TK, Some("K"), |cx| with(vec![("c", mi::<TC>(cx))]));
hand!(TE, Some(""), |cx| with(vec![("n", m::<u8>(cx))]));

thread_local! {
    static NAME: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// A type whose name is chosen at run time.
struct Named;

impl OpgModel for Named {
    fn get_schema(cx: &mut Components) -> Model {
        with(vec![("n", m::<u8>(cx))])
    }

    fn type_name() -> Option<Cow<'static, str>> {
        Some(NAME.with(|x| x.borrow().clone()).into())
    }
}

thread_local! {
    static ZOO: std::cell::RefCell<Option<Model>> = std::cell::RefCell::new(None);
}

/// A type whose schema is chosen at run time.
struct Any;

impl OpgModel for Any {
    fn get_schema(_: &mut Components) -> Model {
        ZOO.with(|x| x.borrow().clone().unwrap())
    }

    fn type_name() -> Option<Cow<'static, str>> {
        Some("A".into())
    }
}

fn put_nullable(v: &mut Value, nullable: bool) {
    if nullable {
        v["nullable"] = json!(true);
    }
}

// ---------------------------------------------------------- abstract types

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    C,
    A,
    N,
    I,
    A2,
    R,
    P,
    Q,
    K,
    E,
    U8,
}

type Reg = BTreeMap<String, Value>;

fn name(t: T) -> Option<&'static str> {
    Some(match t {
        T::C => "C",
        T::A | T::A2 => "A",
        T::N => "N",
        T::R => "R",
        T::P => "P",
        T::Q => "Q",
        T::K => "K",
        T::E => "",
        T::I | T::U8 => return None,
    })
}

/// The schema of a type, registering what it mentions.
fn describe(t: T, reg: &mut Reg) -> Value {
    let mut props = |list: &[(&str, T, bool)]| {
        let mut o = Map::new();
        for (k, t, inline) in list {
            o.insert(k.to_string(), mention(*t, *inline, None, reg));
        }
        json!({ "type": "object", "properties": o })
    };
    match t {
        T::U8 => num().json(),
        T::C => props(&[("c", T::U8, false)]),
        T::A => props(&[("x", T::C, false), ("y", T::U8, false)]),
        T::N => props(&[("a", T::A, false), ("c", T::C, false)]),
        T::I => props(&[("a", T::A, false)]),
        T::A2 => props(&[("other", T::K, false)]),
        T::R => props(&[("r", T::R, false), ("c", T::C, false)]),
        T::P => props(&[("q", T::Q, false)]),
        T::Q => props(&[("p", T::P, false)]),
        T::K => props(&[("c", T::C, true)]),
        T::E => props(&[("n", T::U8, false)]),
    }
}

fn mention(t: T, inline: bool, desc: Option<&str>, reg: &mut Reg) -> Value {
    match name(t) {
        Some(n) if !inline => {
            if !reg.contains_key(n) {
                reg.insert(n.to_string(), Value::Null);
                let v = describe(t, reg);
                reg.insert(n.to_string(), v);
            }
            S::link(n).json()
        }
        _ => {
            let mut v = describe(t, reg);
            if let Some(d) = desc {
                v["description"] = json!(d);
            }
            v
        }
    }
}

// ---------------------------------------------------------------- operations

#[derive(Clone)]
enum Op {
    Mention(T, bool, Option<&'static str>, bool),
    Add(&'static str, u8),
    Security(&'static str, u8),
}

fn model(i: u8) -> (Sm, Value) {
    let x = match i {
        0 => obj(&[("manual", S::plain_str())]),
        1 => S::of(Sd::Bool { nullable: true }),
        _ => obj(&[("to", S::link("C")), ("nowhere", S::link("Missing"))]),
    };
    match &x {
        S::M(m) => ((**m).clone(), x.json()),
        _ => unreachable!(),
    }
}

fn scheme(i: u8) -> (SecurityScheme, Value) {
    match i {
        0 => (
            SecurityScheme::Http(HttpSecurityScheme::Basic { description: None }),
            json!({ "type": "http", "scheme": "basic" }),
        ),
        1 => (
            SecurityScheme::Http(HttpSecurityScheme::Bearer {
                format: s("JWT"),
                description: s("d"),
            }),
            json!({ "type": "http", "scheme": "bearer", "bearerFormat": "JWT", "description": "d" }),
        ),
        _ => (
            SecurityScheme::ApiKey(ApiKeySecurityScheme {
                parameter_in: ParameterIn::Header,
                name: "X".into(),
                description: None,
            }),
            json!({ "type": "apiKey", "in": "header", "name": "X" }),
        ),
    }
}

fn label(op: &Op) -> String {
    match op {
        Op::Mention(t, inline, d, n) => format!(
            "mention {t:?}{}{}{}",
            if *inline { " inline" } else { "" },
            if d.is_some() { " described" } else { "" },
            if *n { " nullable" } else { "" }
        ),
        Op::Add(n, i) => format!("add {n:?}#{i}"),
        Op::Security(n, i) => format!("security {n:?}#{i}"),
    }
}

fn real(op: &Op, cx: &mut Components) -> Value {
    match op {
        Op::Mention(t, inline, d, nullable) => {
            let params = ContextParams {
                description: d.map(str::to_string),
                nullable: if *nullable { Some(true) } else { None },
                ..Default::default()
            };
            let p = &params;
            js(&match t {
                T::C => cx.mention_schema::<TC>(*inline, p),
                T::A => cx.mention_schema::<TA>(*inline, p),
                T::N => cx.mention_schema::<TN>(*inline, p),
                T::I => cx.mention_schema::<TI>(*inline, p),
                T::A2 => cx.mention_schema::<TA2>(*inline, p),
                T::R => cx.mention_schema::<TR>(*inline, p),
                T::P => cx.mention_schema::<TP>(*inline, p),
                T::Q => cx.mention_schema::<TQ>(*inline, p),
                T::K => cx.mention_schema::<TK>(*inline, p),
                T::E => cx.mention_schema::<TE>(*inline, p),
                T::U8 => cx.mention_schema::<u8>(*inline, p),
            })
        }
        Op::Add(n, i) => {
            cx.add_model(*n, model(*i).0.to_model());
            Value::Null
        }
        Op::Security(n, i) => {
            let name = match i {
                // through the concrete types as well
                0 => cx.mention_security_scheme(
                    n.to_string(),
                    &HttpSecurityScheme::Basic { description: None },
                ),
                _ => cx.mention_security_scheme(n.to_string(), &scheme(*i).0),
            };
            json!(name)
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Abs {
    schemas: Vec<(String, String)>,
    security: Vec<(String, String)>,
}

#[derive(Clone, Default, PartialEq)]
struct Ref {
    schemas: Reg,
    security: Reg,
}

impl Ref {
    fn key(&self) -> Abs {
        let f = |r: &Reg| r.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
        Abs {
            schemas: f(&self.schemas),
            security: f(&self.security),
        }
    }
}

fn reference(op: &Op, st: &mut Ref) -> Value {
    match op {
        Op::Mention(t, inline, d, nullable) => {
            let v = mention(*t, *inline, *d, &mut st.schemas);
            if !*nullable {
                return v;
            }
            if v.get("$ref").is_some() {
                let mut o = json!({ "oneOf": [v, rt::null().json()] });
                if let Some(d) = d {
                    o["description"] = json!(d);
                }
                return o;
            }
            let mut v = v;
            v["nullable"] = json!(true);
            v
        }
        Op::Add(n, i) => {
            st.schemas.entry(n.to_string()).or_insert_with(|| model(*i).1);
            Value::Null
        }
        Op::Security(n, i) => {
            st.security.entry(n.to_string()).or_insert_with(|| scheme(*i).1);
            json!(n)
        }
    }
}

fn snapshot(cx: &Components) -> Ref {
    let get = |v: Value| match v {
        Value::Object(o) => o.into_iter().collect(),
        _ => Reg::new(),
    };
    Ref {
        schemas: get(js(&cx.schemas)),
        security: get(js(&cx.security_schemes)),
    }
}

fn explore(r: &mut Report, title: &str, ops: &[Op]) -> usize {
    // states are expanded once; the real registry of every state is kept, so that
    // each transition is taken by the implementation itself
    let mut seen: HashMap<Abs, ()> = HashMap::new();
    let mut queue: VecDeque<(Components, Ref, Vec<u8>)> = VecDeque::new();
    let empty = Ref::default();
    seen.insert(empty.key(), ());
    queue.push_back((Components::new(), empty, Vec::new()));
    let mut longest = 0;
    while let Some((cx, st, path)) = queue.pop_front() {
        r.state();
        for (i, op) in ops.iter().enumerate() {
            r.step();
            let mut after = cx.clone();
            let mut exp = st.clone();
            let want = reference(op, &mut exp);
            let mut trace = path.clone();
            trace.push(i as u8);
            let text = || {
                format!(
                    "{title}: {}",
                    trace.iter().map(|i| label(&ops[*i as usize])).collect::<Vec<_>>().join(" ; ")
                )
            };
            let got = match guard(|| real(op, &mut after)) {
                Ok(v) => v,
                Err(p) => {
                    r.problem(text(), format!("{} panics: {p}", text()), json!(null));
                    continue;
                }
            };
            let now = snapshot(&after);
            if got != want {
                r.problem(
                    text(),
                    format!("{} returns {got} instead of {want}", text()),
                    json!({ "expected": want, "observed": got }),
                );
            }
            if now != exp {
                r.problem(
                    text(),
                    format!("{} leaves a different registry", text()),
                    json!({ "expected": { "schemas": exp.schemas, "security": exp.security },
                            "observed": { "schemas": now.schemas, "security": now.security } }),
                );
                continue;
            }
            // every present name is reported as present, and no other
            for n in ["A", "C", "N", "R", "P", "Q", "K", "", "Missing", "M", "S"] {
                if after.contains_model(n) != exp.schemas.contains_key(n) {
                    r.problem(text(), format!("{}: contains_model({n:?}) is wrong", text()), json!(n));
                }
            }
            // idempotence
            let once = now.key();
            let mut twice = after.clone();
            let again = real(op, &mut twice);
            if again != got || snapshot(&twice).key() != once {
                r.problem(text(), format!("{} repeated changes something", text()), json!({ "first": got, "second": again }));
            }
            r.sample(|| json!({ "history": text(), "registry": exp.schemas.keys().collect::<Vec<_>>() }));
            r.outcome(&json!([got, exp.schemas, exp.security]));
            if seen.insert(once, ()).is_none() {
                longest = longest.max(trace.len());
                queue.push_back((after, exp, trace));
            }
        }
        if r.problems.len() >= 20 {
            break;
        }
    }
    longest
}

/// Histories of the same operations in every order end alike when nothing conflicts.
fn orders(r: &mut Report, ops: &[Op], n: usize) {
    fn run(r: &mut Report, ops: &[Op], picked: &[usize], used: &mut Vec<usize>, cx: &Components, first: &mut Option<Abs>) {
        if used.len() == picked.len() {
            r.step();
            let end = snapshot(cx).key();
            match first {
                None => *first = Some(end),
                Some(f) if *f != end => {
                    let text = used.iter().map(|i| label(&ops[*i])).collect::<Vec<_>>().join(" ; ");
                    r.problem(text.clone(), format!("{text} ends in another registry than a permutation of it"), json!(null));
                }
                _ => {}
            }
            return;
        }
        for i in picked {
            if used.contains(i) {
                continue;
            }
            let mut next = cx.clone();
            real(&ops[*i], &mut next);
            used.push(*i);
            run(r, ops, picked, used, &next, first);
            used.pop();
        }
    }
    fn subsets(total: usize, n: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in from..total {
            cur.push(i);
            subsets(total, n, i + 1, cur, out);
            cur.pop();
        }
    }
    let mut sets = Vec::new();
    subsets(ops.len(), n, 0, &mut Vec::new(), &mut sets);
    for picked in sets {
        r.state();
        run(r, ops, &picked, &mut Vec::new(), &Components::new(), &mut None);
    }
}

fn main() {
    let mut r = Report::new();
    let mn = |t| Op::Mention(t, false, None, false);
    let base = vec![
        mn(T::C),
        mn(T::A),
        mn(T::N),
        mn(T::I),
        mn(T::K),
        mn(T::U8),
        Op::Mention(T::A, true, None, false),
        Op::Mention(T::N, true, Some("d"), false),
        Op::Mention(T::A, false, Some("d"), false),
        Op::Mention(T::A, false, None, true),
        Op::Mention(T::N, false, Some("d"), true),
        Op::Mention(T::C, true, None, true),
    ];
    let all: Vec<Op> = base
        .iter()
        .cloned()
        .chain([
            mn(T::A2),
            mn(T::E),
            Op::Add("A", 0),
            Op::Add("A", 1),
            Op::Add("C", 0),
            Op::Add("C", 1),
            Op::Add("M", 0),
            Op::Add("M", 2),
            Op::Add("", 1),
        ])
        .collect();
    let mut longest = 0;
    longest = longest.max(explore(&mut r, "mentions and additions", &all));
    let rec = vec![
        mn(T::R),
        mn(T::P),
        mn(T::Q),
        mn(T::C),
        Op::Mention(T::R, false, Some("d"), true),
        Op::Mention(T::R, true, None, false),
        Op::Mention(T::P, true, Some("d"), false),
        Op::Add("R", 0),
        Op::Add("P", 1),
        Op::Add("Q", 2),
        Op::Add("C", 0),
    ];
    longest = longest.max(explore(&mut r, "recursive types", &rec));
    let mut sec = vec![mn(T::A), Op::Add("S", 0), Op::Add("A", 1)];
    for n in ["S", "A", ""] {
        for i in 0..3 {
            sec.push(Op::Security(n, i));
        }
    }
    longest = longest.max(explore(&mut r, "security schemes", &sec));
    // in every order
    let free: Vec<Op> = base
        .iter()
        .cloned()
        .chain([
            Op::Add("M", 0),
            Op::Add("Z", 1),
            Op::Security("S", 0),
            Op::Security("B", 1),
            mn(T::R),
            mn(T::P),
            mn(T::Q),
        ])
        .collect();
    for n in 2..=if deep() { 5 } else { 4 } {
        orders(&mut r, &free, n);
    }
    // names of every form: equal names are one entry, different names are two
    let known = words();
    let (m0, j0) = model(0);
    let (m1, j1) = model(1);
    let (s0, k0) = scheme(1);
    let (s1, k1) = scheme(2);
    for a in &known {
        r.state();
        let mut first = Components::new();
        first.add_model(a.clone(), m0.to_model());
        first.mention_security_scheme(a.clone(), &s0);
        for b in known.iter().take(if deep() { known.len() } else { 600 }) {
            r.step();
            let mut cx = first.clone();
            cx.add_model(b.clone(), m1.to_model());
            let name = cx.mention_security_scheme(b.clone(), &s1);
            let mut schemas = Map::new();
            schemas.insert(b.clone(), j1.clone());
            schemas.insert(a.clone(), j0.clone());
            let mut security = Map::new();
            security.insert(b.clone(), k1.clone());
            security.insert(a.clone(), k0.clone());
            let now = snapshot(&cx);
            let want = Ref {
                schemas: schemas.into_iter().collect(),
                security: security.into_iter().collect(),
            };
            if now != want || &name != b || !cx.contains_model(a) || !cx.contains_model(b) || first.contains_model(b) != (a == b) {
                let key = format!("add and secure {a:?} ; add and secure {b:?}");
                r.problem(key.clone(), format!("{key}: wrong registry {}", js(&cx)), js(&cx));
            }
        }
        // the same with types of those names: mention then mention, add then mention, mention then add
        NAME.with(|x| *x.borrow_mut() = a.clone());
        let mut mentioned = Components::new();
        mentioned.mention_schema::<Named>(false, &Default::default());
        let described = json!({ "type": "object", "properties": { "n": num().json() } });
        for b in known.iter().take(if deep() { known.len() } else { 600 }) {
            r.step();
            NAME.with(|x| *x.borrow_mut() = b.clone());
            let key = format!("types called {a:?} ; {b:?}");
            let (mut x, mut y, mut z) = (mentioned.clone(), first.clone(), mentioned.clone());
            let links = [x.mention_schema::<Named>(false, &Default::default()), y.mention_schema::<Named>(false, &Default::default())];
            z.add_model(b.clone(), m1.to_model());
            for l in &links {
                r.expect(&key, &js(l), &S::link(b).json());
            }
            for (cx, one, two) in [(&x, &described, &described), (&y, &j0, &described), (&z, &described, &j1)] {
                let mut want = Map::new();
                want.insert(b.clone(), two.clone());
                want.insert(a.clone(), one.clone());
                r.expect(&key, &js(&cx.schemas), &Value::Object(want));
            }
        }
        NAME.with(|x| *x.borrow_mut() = a.clone());
        for inline in [false, true] {
            for nullable in [false, true] {
                r.step();
                let mut cx = Components::new();
                let p = ContextParams {
                    nullable: nullable.then(|| true),
                    ..Default::default()
                };
                let got = js(&cx.mention_schema::<Named>(inline, &p));
                let again = js(&cx.mention_schema::<Named>(inline, &p));
                let full = json!({ "type": "object", "properties": { "n": num().json() } });
                let want = if inline {
                    let mut f = full.clone();
                    put_nullable(&mut f, nullable);
                    f
                } else if nullable {
                    json!({ "oneOf": [S::link(a).json(), rt::null().json()] })
                } else {
                    S::link(a).json()
                };
                let mut reg = Map::new();
                if !inline {
                    reg.insert(a.clone(), full);
                }
                let key = format!("mention a type called {a:?}");
                r.expect(&key, &got, &want);
                r.expect(&key, &again, &want);
                r.expect(&key, &js(&cx.schemas), &Value::Object(reg));
            }
        }
    }
    // every kind of schema against every other: what is registered stays, however it got there
    let all_models = zoo();
    for a in &all_models {
        r.state();
        let first = a.json();
        for b in &all_models {
            for how in 0..4 {
                r.step();
                let mut cx = Components::new();
                NAME.with(|x| *x.borrow_mut() = "A".to_string());
                let put = |cx: &mut Components, m: &Sm, mention: bool| {
                    if mention {
                        ZOO.with(|x| *x.borrow_mut() = Some(m.to_model()));
                        js(&cx.mention_schema::<Any>(false, &Default::default()))
                    } else {
                        cx.add_model("A", m.to_model());
                        S::link("A").json()
                    }
                };
                let one = put(&mut cx, a, how & 1 == 1);
                let two = put(&mut cx, b, how & 2 == 2);
                let key = format!("{} A = {first} ; {} A = {}", ["add", "mention"][how & 1], ["add", "mention"][how >> 1], b.json());
                r.expect(&key, &js(&cx.schemas), &json!({ "A": first }));
                if one != S::link("A").json() || two != one {
                    r.problem(key.clone(), format!("{key}: returned {one} and {two}"), json!(null));
                }
            }
        }
        // schemas that differ only in name or order of registration
        let mut cx = Components::new();
        for n in ["B", "A", "C"] {
            cx.add_model(n, a.to_model());
        }
        r.expect("one schema under three names", &js(&cx.schemas), &json!({ "A": first, "B": first, "C": first }));
    }
    // registries of every size: everything stays
    let mut cx = Components::new();
    let mut want = Ref::default();
    for n in 0..if deep() { 600 } else { 150 } {
        r.state();
        r.step();
        let name = format!("n{n}");
        cx.add_model(name.clone(), if n % 2 == 0 { m0.to_model() } else { m1.to_model() });
        cx.add_model(name.clone(), m1.to_model());
        cx.mention_security_scheme(name.clone(), if n % 3 == 0 { &s0 } else { &s1 });
        cx.mention_security_scheme(format!("n{}", n / 2), &s1);
        m::<TA>(&mut cx);
        reference(&mn(T::A), &mut want);
        want.schemas.insert(name.clone(), if n % 2 == 0 { j0.clone() } else { j1.clone() });
        want.security.insert(name.clone(), if n % 3 == 0 { k0.clone() } else { k1.clone() });
        if snapshot(&cx) != want {
            r.problem(format!("{n} entries"), format!("a registry with {n} added entries lost or changed one"), js(&cx));
            break;
        }
    }
    r.extra.insert(
        "bounds".into(),
        json!({ "history length": "unbounded (closed state graphs)", "longest shortest history": longest,
                "operations": all.len() + rec.len() + sec.len(), "permuted histories up to": if deep() { 5 } else { 4 } }),
    );
    r.finish();
}
