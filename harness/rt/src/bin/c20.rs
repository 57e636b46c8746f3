//! Serialization of document values against the OpenAPI objects they stand for. Every
//! part is a pair of the library's value and the JSON a reader is entitled to; wholes
//! are built from every combination of parts.
use std::collections::BTreeMap;

use opg::*;
use rt::*;

type Pair<T> = (T, Value);

fn texts() -> Vec<&'static str> {
    vec!["t", "", "null", "a \"q\" \\ é\n"]
}

fn opt_texts(rich: bool) -> Vec<Option<&'static str>> {
    let mut v = vec![None, Some("t")];
    if rich {
        v.extend([Some(""), Some("a \"q\" \\ é\n")]);
    }
    v
}

fn put(o: &mut Value, k: &str, v: Option<Value>) {
    if let Some(v) = v {
        o[k] = v;
    }
}

fn own(x: &Option<&str>) -> Option<String> {
    x.map(str::to_string)
}

fn schemas() -> Vec<S> {
    vec![
        S::link("A"),
        S::plain_str(),
        S::Any,
        null(),
        S::of(Sd::Arr {
            nullable: true,
            items: S::link("B"),
        }),
        S::of(Sd::OneOf(vec![S::link("A"), S::link("B")])),
        S::of(Sd::Obj {
            nullable: false,
            props: vec![("p".into(), S::link("A"))],
            extra: None,
            required: vec!["p".into()],
        }),
    ]
}

fn models() -> Vec<Pair<Model>> {
    schemas()
        .into_iter()
        .filter_map(|x| match &x {
            S::M(m) => Some((m.to_model(), x.json())),
            _ => None,
        })
        .collect()
}

fn content(x: &S) -> Value {
    json!({ "application/json": { "schema": x.json() } })
}

fn bodies() -> Vec<Pair<RequestBody>> {
    let mut out = Vec::new();
    for x in schemas() {
        for d in opt_texts(true) {
            for required in [true, false] {
                let mut v = json!({ "content": content(&x) });
                put(&mut v, "description", d.map(|d| json!(d)));
                put(&mut v, "required", required.then(|| json!(true)));
                out.push((
                    RequestBody {
                        description: own(&d),
                        required,
                        schema: x.to_ref(),
                    },
                    v,
                ));
            }
        }
    }
    out
}

fn responses() -> Vec<Pair<Response>> {
    let mut out = Vec::new();
    for d in texts() {
        out.push((
            Response {
                description: d.to_string(),
                schema: None,
            },
            json!({ "description": d }),
        ));
        for x in schemas() {
            out.push((
                Response {
                    description: d.to_string(),
                    schema: Some(x.to_ref()),
                },
                json!({ "description": d, "content": content(&x) }),
            ));
        }
    }
    out
}

fn parameters() -> Vec<Pair<OperationParameter>> {
    let mut out = Vec::new();
    let places = [
        (ParameterIn::Query, "query"),
        (ParameterIn::Header, "header"),
        (ParameterIn::Path, "path"),
        (ParameterIn::Cookie, "cookie"),
    ];
    let mut sch: Vec<Option<S>> = vec![None];
    sch.extend(schemas().into_iter().map(Some));
    for (place, text) in places {
        for d in opt_texts(true) {
            for required in [false, true] {
                for deprecated in [false, true] {
                    for x in &sch {
                        let mut v = json!({ "in": text });
                        put(&mut v, "description", d.map(|d| json!(d)));
                        put(&mut v, "required", required.then(|| json!(true)));
                        put(&mut v, "deprecated", deprecated.then(|| json!(true)));
                        put(&mut v, "schema", x.as_ref().map(|x| x.json()));
                        out.push((
                            OperationParameter {
                                description: own(&d),
                                parameter_in: place,
                                required,
                                deprecated,
                                schema: x.as_ref().map(|x| x.to_ref()),
                            },
                            v,
                        ));
                    }
                }
            }
        }
    }
    out
}

fn named(n: &str, p: &Pair<OperationParameter>) -> Value {
    let mut v = p.1.clone();
    v["name"] = json!(n);
    v
}

/// A list of parameters in name order.
fn parameter_list(ps: &[(&str, Pair<OperationParameter>)]) -> (BTreeMap<String, OperationParameter>, Value) {
    let map: BTreeMap<String, OperationParameter> = ps.iter().map(|(n, p)| (n.to_string(), p.0.clone())).collect();
    let mut names: Vec<&str> = ps.iter().map(|x| x.0).collect();
    names.sort();
    let list = names
        .iter()
        .map(|n| named(n, &ps.iter().find(|x| x.0 == *n).unwrap().1))
        .collect();
    (map, Value::Array(list))
}

fn parameter_lists() -> Vec<Pair<BTreeMap<String, OperationParameter>>> {
    let ps = parameters();
    let some: Vec<_> = ps.iter().step_by(37).take(6).cloned().collect();
    let mut out = vec![(BTreeMap::new(), json!([]))];
    for a in &some {
        out.push(parameter_list(&[("p", a.clone())]));
    }
    out.push(parameter_list(&[("b", some[0].clone()), ("a", some[1].clone())]));
    out.push(parameter_list(&[("b", some[2].clone()), ("B", some[3].clone()), ("X-a", some[4].clone()), ("", some[5].clone())]));
    out
}

fn methods() -> Vec<(HttpMethod, &'static str)> {
    vec![
        (HttpMethod::GET, "get"),
        (HttpMethod::PUT, "put"),
        (HttpMethod::POST, "post"),
        (HttpMethod::DELETE, "delete"),
        (HttpMethod::OPTIONS, "options"),
        (HttpMethod::HEAD, "head"),
        (HttpMethod::PATCH, "patch"),
        (HttpMethod::TRACE, "trace"),
    ]
}

fn paths() -> Vec<(Path, String)> {
    let elems: Vec<(PathElement, &str)> = vec![
        (PathElement::Path("a".into()), "/a"),
        (PathElement::Parameter("a".into()), "/{a}"),
        (PathElement::Path("b c".into()), "/b c"),
        (PathElement::Parameter("userId".into()), "/{userId}"),
        (PathElement::Path("{x}".into()), "/{x}"),
        (PathElement::Path("".into()), "/"),
    ];
    let mut out = vec![(Path(vec![]), String::new())];
    let mut level = out.clone();
    for _ in 0..3 {
        let mut next = Vec::new();
        for (p, t) in &level {
            for (e, s) in &elems {
                let mut q = p.0.clone();
                q.push(e.clone());
                next.push((Path(q), format!("{t}{s}")));
            }
        }
        out.extend(next.clone());
        level = next;
    }
    out
}

fn security() -> Vec<Pair<Vec<BTreeMap<String, Vec<String>>>>> {
    let one = |xs: &[(&str, &[&str])]| -> BTreeMap<String, Vec<String>> {
        xs.iter()
            .map(|(k, v)| (k.to_string(), v.iter().map(|x| x.to_string()).collect()))
            .collect()
    };
    vec![
        (vec![], json!([])),
        (vec![one(&[])], json!([{}])),
        (vec![one(&[("s", &[])])], json!([{ "s": [] }])),
        (
            vec![one(&[("t", &["r2", "r1"]), ("s", &[])]), one(&[]), one(&[("a", &["x"])])],
            json!([{ "s": [], "t": ["r2", "r1"] }, {}, { "a": ["x"] }]),
        ),
    ]
}

/// Serializes and compares; the text may not repeat a key.
fn same<T: serde::Serialize>(r: &mut Report, what: &str, x: &T, want: &Value) {
    r.step();
    let got = js(x);
    if &got != want {
        r.problem(
            format!("{what} {want}"),
            format!("{what}: expected {want}, got {got}"),
            json!({ "expected": want, "observed": got }),
        );
        return;
    }
    match guard(|| serde_json::to_string(x)) {
        Ok(Ok(raw)) if raw.len() == want.to_string().len() => {}
        other => r.problem(format!("{what} {want}"), format!("{what}: the text repeats a key or fails: {other:?}"), json!(null)),
    }
    if let Some(e) = yaml_problem(x, want) {
        r.problem(format!("{what} {want}"), format!("{what}: {e}"), json!(e));
    }
    r.outcome(want);
    r.sample(|| json!({ "what": what, "json": want }));
}

struct OpParts {
    tags: Vec<Pair<Vec<String>>>,
    summary: Vec<Option<&'static str>>,
    id: Vec<Option<&'static str>>,
    desc: Vec<Option<&'static str>>,
    deprecated: Vec<bool>,
    security: Vec<Pair<Vec<BTreeMap<String, Vec<String>>>>>,
    body: Vec<Option<Pair<RequestBody>>>,
    responses: Vec<Pair<BTreeMap<u16, Response>>>,
    params: Vec<Pair<BTreeMap<String, OperationParameter>>>,
    callbacks: Vec<Pair<BTreeMap<String, CallbackObject>>>,
}

fn tag_lists() -> Vec<Pair<Vec<String>>> {
    vec![
        (vec![], json!([])),
        (vec!["t".into()], json!(["t"])),
        (vec!["z".into(), "a".into(), "a".into()], json!(["z", "a", "a"])),
    ]
}

fn response_maps(rs: &[Pair<Response>]) -> Vec<Pair<BTreeMap<u16, Response>>> {
    let of = |xs: &[(u16, usize)]| {
        let mut m = BTreeMap::new();
        let mut v = json!({});
        for (c, i) in xs {
            m.insert(*c, rs[*i].0.clone());
            v[c.to_string()] = rs[*i].1.clone();
        }
        (m, v)
    };
    vec![
        of(&[]),
        of(&[(200, 1)]),
        of(&[(404, 0), (200, 2), (1000, 9), (0, 3)]),
        of(&[(100, 4), (999, 5), (65535, 6)]),
    ]
}

fn op(p: &OpParts, i: &[usize; 10]) -> Pair<Operation> {
    let mut v = json!({ "responses": p.responses[i[7]].1 });
    let list = |x: &Value| (!x.as_array().map_or(false, |a| a.is_empty())).then(|| x.clone());
    put(&mut v, "tags", list(&p.tags[i[0]].1));
    put(&mut v, "summary", p.summary[i[1]].map(|x| json!(x)));
    put(&mut v, "operationId", p.id[i[2]].map(|x| json!(x)));
    put(&mut v, "description", p.desc[i[3]].map(|x| json!(x)));
    put(&mut v, "deprecated", p.deprecated[i[4]].then(|| json!(true)));
    put(&mut v, "security", list(&p.security[i[5]].1));
    put(&mut v, "requestBody", p.body[i[6]].as_ref().map(|x| x.1.clone()));
    put(&mut v, "parameters", list(&p.params[i[8]].1));
    let cb = &p.callbacks[i[9]];
    put(&mut v, "callbacks", (!cb.0.is_empty()).then(|| cb.1.clone()));
    (
        Operation {
            tags: p.tags[i[0]].0.clone(),
            summary: own(&p.summary[i[1]]),
            operation_id: own(&p.id[i[2]]),
            description: own(&p.desc[i[3]]),
            deprecated: p.deprecated[i[4]],
            security: p.security[i[5]].0.clone(),
            request_body: p.body[i[6]].as_ref().map(|x| x.0.clone()),
            responses: p.responses[i[7]].0.clone(),
            parameters: p.params[i[8]].0.clone(),
            callbacks: cb.0.clone(),
        },
        v,
    )
}

fn lens(p: &OpParts) -> [usize; 10] {
    [
        p.tags.len(),
        p.summary.len(),
        p.id.len(),
        p.desc.len(),
        p.deprecated.len(),
        p.security.len(),
        p.body.len(),
        p.responses.len(),
        p.params.len(),
        p.callbacks.len(),
    ]
}

fn product(n: &[usize; 10], mut f: impl FnMut(&[usize; 10])) {
    let mut i = [0; 10];
    loop {
        f(&i);
        let mut k = 0;
        loop {
            if k == 10 {
                return;
            }
            i[k] += 1;
            if i[k] < n[k] {
                break;
            }
            i[k] = 0;
            k += 1;
        }
    }
}

fn path_values(op: &Pair<Operation>, other: &Pair<Operation>, rich: bool) -> Vec<Pair<PathValue>> {
    let ms = methods();
    let mut out = Vec::new();
    let sets: Vec<u32> = if rich { (0..256).collect() } else { vec![0, 1, 0b100, 0b1010_0101, 255] };
    for set in sets {
        for summary in [None, Some("ps")] {
            for description in [None, Some("pd")] {
                for (k, params) in parameter_lists().into_iter().enumerate() {
                    if !rich && k > 1 {
                        break;
                    }
                    if rich && k > 1 && set > 3 {
                        break;
                    }
                    let mut v = json!({});
                    put(&mut v, "summary", summary.map(|x| json!(x)));
                    put(&mut v, "description", description.map(|x| json!(x)));
                    let mut operations = BTreeMap::new();
                    for (i, (m, t)) in ms.iter().enumerate() {
                        if set >> i & 1 == 1 {
                            let o = if i % 2 == 0 { op } else { other };
                            operations.insert(m.clone(), o.0.clone());
                            v[*t] = o.1.clone();
                        }
                    }
                    put(&mut v, "parameters", (!params.0.is_empty()).then(|| params.1.clone()));
                    out.push((
                        PathValue {
                            summary: own(&summary),
                            description: own(&description),
                            operations,
                            parameters: params.0,
                        },
                        v,
                    ));
                }
            }
        }
    }
    out
}

/// Paths keep the order they are listed in, which only the text shows.
fn ordered(r: &mut Report, what: &str, raw: &str, names: &[String]) {
    let mut at = 0;
    for n in names {
        let key = format!("{}:", json!(n));
        match raw[at..].find(&key) {
            Some(i) => at += i + key.len(),
            None => {
                r.problem(format!("{what} {names:?}"), format!("{what}: {n:?} is missing or out of order in {raw}"), json!(raw));
                return;
            }
        }
    }
}

fn schemes() -> Vec<Pair<SecurityScheme>> {
    let mut out = Vec::new();
    for d in opt_texts(true) {
        let mut v = json!({ "type": "http", "scheme": "basic" });
        put(&mut v, "description", d.map(|d| json!(d)));
        out.push((HttpSecurityScheme::Basic { description: own(&d) }.into(), v));
        for f in opt_texts(true) {
            let mut v = json!({ "type": "http", "scheme": "bearer" });
            put(&mut v, "description", d.map(|d| json!(d)));
            put(&mut v, "bearerFormat", f.map(|d| json!(d)));
            out.push((
                HttpSecurityScheme::Bearer {
                    format: own(&f),
                    description: own(&d),
                }
                .into(),
                v,
            ));
        }
        for (place, text) in [(ParameterIn::Query, "query"), (ParameterIn::Header, "header"), (ParameterIn::Path, "path"), (ParameterIn::Cookie, "cookie")] {
            for n in texts() {
                let mut v = json!({ "type": "apiKey", "in": text, "name": n });
                put(&mut v, "description", d.map(|d| json!(d)));
                out.push((
                    ApiKeySecurityScheme {
                        parameter_in: place,
                        name: n.to_string(),
                        description: own(&d),
                    }
                    .into(),
                    v,
                ));
            }
        }
    }
    out
}

fn main() {
    let mut r = Report::new();
    let bs = bodies();
    let rs = responses();
    let ps = parameters();
    for (x, v) in &bs {
        r.state();
        same(&mut r, "request body", x, v);
    }
    for (x, v) in &rs {
        r.state();
        same(&mut r, "response", x, v);
    }
    let all_paths = paths();
    for (x, v) in &all_paths {
        r.state();
        same(&mut r, "path", x, &json!(v));
    }
    for (m, t) in methods() {
        r.state();
        same(&mut r, "method", &m, &json!(t));
    }
    for (x, v) in schemes() {
        r.state();
        same(&mut r, "security scheme", &x, &v);
    }
    // each parameter inside of an operation and of a path
    for p in &ps {
        r.state();
        let (map, list) = parameter_list(&[("n", p.clone())]);
        let o = Operation {
            parameters: map.clone(),
            ..Default::default()
        };
        same(&mut r, "operation parameter", &o, &json!({ "responses": {}, "parameters": list }));
        let v = PathValue {
            parameters: map,
            ..Default::default()
        };
        same(&mut r, "path parameter", &v, &json!({ "parameters": list }));
    }
    for b in &bs {
        r.state();
        let mut o = Operation::default();
        o.with_request_body(b.0.clone());
        same(&mut r, "operation body", &o, &json!({ "responses": {}, "requestBody": b.1 }));
    }
    for x in &rs {
        for code in [0u16, 100, 200, 404, 418, 599, 1000, 65535] {
            r.state();
            let mut o = Operation::default();
            o.responses.insert(code, x.0.clone());
            same(&mut r, "operation response", &o, &json!({ "responses": { code.to_string(): x.1 } }));
        }
    }
    // operations: every combination of parts
    let leaf_ops = OpParts {
        tags: tag_lists(),
        summary: vec![None, Some("s"), Some("")],
        id: vec![None, Some("id")],
        desc: vec![None, Some("d")],
        deprecated: vec![false, true],
        security: security(),
        body: vec![None, Some(bs[0].clone()), Some(bs[11].clone())],
        responses: response_maps(&rs),
        params: parameter_lists().into_iter().take(if deep() { 5 } else { 3 }).collect(),
        callbacks: vec![(BTreeMap::new(), json!({}))],
    };
    let first = op(&leaf_ops, &[1, 1, 1, 1, 0, 2, 1, 1, 1, 0]);
    let second = op(&leaf_ops, &[2, 0, 1, 0, 1, 3, 2, 2, 2, 0]);
    let callbacks: Vec<Pair<BTreeMap<String, CallbackObject>>> = {
        let pv = path_values(&first, &second, false);
        let of = |xs: &[(&str, &[(usize, usize)])]| {
            let mut m = BTreeMap::new();
            let mut v = json!({});
            for (n, list) in xs {
                let mut cv = json!({});
                let mut c = CallbackObject::default();
                for (p, x) in list.iter() {
                    c.paths.push((all_paths[*p].0.clone(), pv[*x].0.clone()));
                    cv[all_paths[*p].1.as_str()] = pv[*x].1.clone();
                }
                m.insert(n.to_string(), c);
                v[*n] = cv;
            }
            (m, v)
        };
        vec![
            of(&[]),
            of(&[("cb", &[])]),
            of(&[("cb", &[(2, 5)])]),
            of(&[("z", &[(9, 12), (1, 0)]), ("a", &[(8, 8)])]),
        ]
    };
    let ops = OpParts { callbacks, ..leaf_ops };
    product(&lens(&ops), |i| {
        r.state();
        let (o, v) = op(&ops, i);
        same(&mut r, "operation", &o, &v);
    });
    // setters
    for (a, b) in [("x", "y"), ("", "z")] {
        for deprecated in [true, false] {
            for mask in 0..16u32 {
                r.state();
                let (mut o, mut v) = op(&ops, &[1, 1, 1, 1, 1, 1, 0, 1, 1, 0]);
                if mask & 1 != 0 {
                    o.with_summary(a);
                    v["summary"] = json!(a);
                }
                if mask & 2 != 0 {
                    o.with_description(&b.to_string());
                    v["description"] = json!(b);
                }
                if mask & 4 != 0 {
                    o.with_operation_id(a);
                    v["operationId"] = json!(a);
                }
                if mask & 8 != 0 {
                    o.mark_deprecated(deprecated);
                    if !deprecated {
                        v.as_object_mut().unwrap().remove("deprecated");
                    }
                }
                same(&mut r, "setters", &o, &v);
            }
        }
    }
    // path items
    let pvs = path_values(&first, &second, true);
    for (x, v) in &pvs {
        r.state();
        same(&mut r, "path item", x, v);
    }
    // ordered paths, in callbacks and in documents
    let few: Vec<usize> = vec![1, 2, 9, 8, 15, 44];
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=if deep() { 4 } else { 3 } {
        let mut next: Vec<Vec<usize>> = Vec::new();
        for o in orders.iter().filter(|o| o.len() == n - 1) {
            for x in &few {
                if !o.contains(x) {
                    let mut o = o.clone();
                    o.push(*x);
                    next.push(o);
                }
            }
        }
        orders.extend(next);
    }
    let pv: Vec<_> = path_values(&first, &second, false);
    for order in &orders {
        r.state();
        let list: Vec<(Path, PathValue)> = order
            .iter()
            .enumerate()
            .map(|(k, i)| (all_paths[*i].0.clone(), pv[k * 3 % pv.len()].0.clone()))
            .collect();
        let mut v = json!({});
        for (k, i) in order.iter().enumerate() {
            v[all_paths[*i].1.as_str()] = pv[k * 3 % pv.len()].1.clone();
        }
        let names: Vec<String> = order.iter().map(|i| all_paths[*i].1.clone()).collect();
        let cb = CallbackObject { paths: list.clone() };
        same(&mut r, "callback", &cb, &v);
        if let Ok(Ok(raw)) = guard(|| serde_json::to_string(&cb)) {
            ordered(&mut r, "callback", &raw, &names);
        }
        let doc = Opg {
            paths: list,
            ..Default::default()
        };
        let mut want = json!({ "openapi": "3.0.3", "info": { "title": "", "version": "" }, "components": {} });
        put(&mut want, "paths", (!order.is_empty()).then(|| v.clone()));
        same(&mut r, "document", &doc, &want);
        if let Ok(Ok(raw)) = guard(|| serde_json::to_string(&doc)) {
            ordered(&mut r, "document", &raw, &names);
        }
    }
    // documents: every combination of parts
    let infos: Vec<Pair<Info>> = {
        let mut out = Vec::new();
        for t in texts() {
            for d in opt_texts(true) {
                let mut v = json!({ "title": t, "version": "1" });
                put(&mut v, "description", d.map(|d| json!(d)));
                out.push((
                    Info {
                        title: t.into(),
                        description: own(&d),
                        version: "1".into(),
                    },
                    v,
                ));
            }
        }
        out
    };
    let tags: Vec<Pair<BTreeMap<String, Tag>>> = {
        let of = |xs: &[(&str, Option<&str>)]| {
            let map: BTreeMap<String, Tag> = xs.iter().map(|(n, d)| (n.to_string(), Tag { description: own(d) })).collect();
            let mut sorted = xs.to_vec();
            sorted.sort();
            let list = sorted
                .iter()
                .map(|(n, d)| {
                    let mut v = json!({ "name": n });
                    put(&mut v, "description", d.map(|d| json!(d)));
                    v
                })
                .collect();
            (map, Value::Array(list))
        };
        vec![
            of(&[]),
            of(&[("t", None)]),
            of(&[("t", Some("d"))]),
            of(&[("b", None), ("a", Some(""))]),
            of(&[("c", Some("1")), ("B", Some("2")), ("a", Some("3")), ("", None)]),
        ]
    };
    let servers: Vec<Pair<Vec<Server>>> = {
        let of = |xs: &[(&str, Option<&str>)]| {
            let list = xs
                .iter()
                .map(|(u, d)| Server {
                    url: u.to_string(),
                    description: own(d),
                })
                .collect();
            let v = xs
                .iter()
                .map(|(u, d)| {
                    let mut v = json!({ "url": u });
                    put(&mut v, "description", d.map(|d| json!(d)));
                    v
                })
                .collect();
            (list, Value::Array(v))
        };
        vec![of(&[]), of(&[("/", None)]), of(&[("z", Some("d")), ("a", None), ("a", Some(""))])]
    };
    let comps: Vec<Pair<Components>> = {
        let ms = models();
        let ss = schemes();
        let mut out = Vec::new();
        for ns in 0..3usize {
            for nk in 0..3usize {
                for i in 0..ms.len() {
                    for j in (0..ss.len()).step_by(if deep() { 1 } else { 5 }) {
                        let mut c = Components::new();
                        let mut v = json!({});
                        for k in 0..ns {
                            let m = &ms[(i + k) % ms.len()];
                            c.schemas.insert(["B", "A"][k].to_string(), m.0.clone());
                            v["schemas"][["B", "A"][k]] = m.1.clone();
                        }
                        for k in 0..nk {
                            let m = &ss[(j + k) % ss.len()];
                            c.security_schemes.insert(["s", "B"][k].to_string(), m.0.clone());
                            v["securitySchemes"][["s", "B"][k]] = m.1.clone();
                        }
                        out.push((c, v));
                        if nk == 0 {
                            break;
                        }
                    }
                    if ns == 0 {
                        break;
                    }
                }
            }
        }
        out
    };
    for (c, v) in &comps {
        r.state();
        same(&mut r, "components", c, v);
    }
    let path_sets: Vec<Vec<usize>> = vec![vec![], vec![1], vec![9, 2]];
    for info in &infos {
        for tag in &tags {
            for server in &servers {
                for (k, c) in comps.iter().enumerate() {
                    if k % (comps.len() / 8).max(1) != 0 && !deep() {
                        continue;
                    }
                    for set in &path_sets {
                        r.state();
                        let mut want = json!({ "openapi": "3.0.3", "info": info.1, "components": c.1 });
                        put(&mut want, "tags", (!tag.0.is_empty()).then(|| tag.1.clone()));
                        put(&mut want, "servers", (!server.0.is_empty()).then(|| server.1.clone()));
                        let mut pvj = json!({});
                        let mut list = Vec::new();
                        for i in set {
                            list.push((all_paths[*i].0.clone(), pv[6 % pv.len()].0.clone()));
                            pvj[all_paths[*i].1.as_str()] = pv[6 % pv.len()].1.clone();
                        }
                        put(&mut want, "paths", (!set.is_empty()).then(|| pvj));
                        let doc = Opg {
                            info: info.0.clone(),
                            tags: tag.0.clone(),
                            servers: server.0.clone(),
                            paths: list,
                            components: c.0.clone(),
                            ..Default::default()
                        };
                        same(&mut r, "document", &doc, &want);
                    }
                }
            }
        }
    }
    // every word at every position of a text
    for w in words() {
        r.state();
        let t = || Some(w.clone());
        let any = || Some(ModelReference::Any);
        let mut param = OperationParameter {
            description: t(),
            parameter_in: ParameterIn::Header,
            required: false,
            deprecated: true,
            schema: None,
        };
        let pj = json!({ "name": w, "in": "header", "description": w, "deprecated": true });
        let parameters: BTreeMap<String, OperationParameter> = std::iter::once((w.clone(), param.clone())).collect();
        let pv = PathValue {
            summary: t(),
            description: t(),
            parameters: parameters.clone(),
            ..Default::default()
        };
        let pvj = json!({ "summary": w, "description": w, "parameters": [pj] });
        same(&mut r, "path item words", &pv, &pvj);
        for (e, text) in [(PathElement::Path(w.clone()), format!("/{w}")), (PathElement::Parameter(w.clone()), format!("/{{{w}}}"))] {
            same(&mut r, "path words", &Path(vec![e.clone()]), &json!(text));
            let longer = Path(vec![PathElement::Path("a".into()), e.clone(), PathElement::Parameter("b".into())]);
            let long = format!("/a{text}/{{b}}");
            same(&mut r, "path words", &longer, &json!(long));
            let cb = CallbackObject {
                paths: vec![(longer, pv.clone())],
            };
            let cbj = json!({ long: pvj });
            same(&mut r, "callback words", &cb, &cbj);
            let o = Operation {
                tags: vec![w.clone()],
                summary: t(),
                operation_id: t(),
                description: t(),
                security: vec![std::iter::once((w.clone(), vec![w.clone()])).collect()],
                callbacks: std::iter::once((w.clone(), cb)).collect(),
                responses: std::iter::once((
                    200,
                    Response {
                        description: w.clone(),
                        schema: any(),
                    },
                ))
                .collect(),
                request_body: Some(RequestBody {
                    description: t(),
                    required: false,
                    schema: ModelReference::Link(w.clone()),
                }),
                parameters: parameters.clone(),
                ..Default::default()
            };
            let oj = json!({ "tags": [w], "summary": w, "operationId": w, "description": w, "security": [{ w.as_str(): [w] }],
                "callbacks": { w.as_str(): cbj }, "responses": { "200": { "description": w, "content": { "application/json": { "schema": {} } } } },
                "requestBody": { "description": w, "content": content(&S::link(&w)) }, "parameters": [pj] });
            same(&mut r, "operation words", &o, &oj);
        }
        param.description = None;
        let mut components = Components::new();
        components.schemas.insert(w.clone(), models()[0].0.clone());
        components.security_schemes.insert(
            w.clone(),
            ApiKeySecurityScheme {
                parameter_in: ParameterIn::Cookie,
                name: w.clone(),
                description: t(),
            }
            .into(),
        );
        let cj = json!({ "schemas": { w.as_str(): models()[0].1 },
            "securitySchemes": { w.as_str(): { "type": "apiKey", "in": "cookie", "name": w, "description": w } } });
        same(&mut r, "bearer words", &SecurityScheme::from(HttpSecurityScheme::Bearer { format: t(), description: t() }),
            &json!({ "type": "http", "scheme": "bearer", "bearerFormat": w, "description": w }));
        same(&mut r, "basic words", &SecurityScheme::from(HttpSecurityScheme::Basic { description: t() }),
            &json!({ "type": "http", "scheme": "basic", "description": w }));
        let doc = Opg {
            info: Info {
                title: w.clone(),
                version: w.clone(),
                description: t(),
            },
            tags: std::iter::once((w.clone(), Tag { description: t() })).collect(),
            servers: vec![Server {
                url: w.clone(),
                description: t(),
            }],
            components,
            ..Default::default()
        };
        same(&mut r, "document words", &doc, &json!({ "openapi": "3.0.3", "info": { "title": w, "version": w, "description": w },
            "tags": [{ "name": w, "description": w }], "servers": [{ "url": w, "description": w }], "components": cj }));
    }
    // every status code
    for code in 0..=u16::MAX {
        r.state();
        let mut o = Operation::default();
        o.responses.insert(code, rs[0].0.clone());
        same(&mut r, "status code", &o, &json!({ "responses": { code.to_string(): rs[0].1 } }));
    }
    // collections of every size
    for n in 0..if deep() { 200 } else { 60usize } {
        r.state();
        let name = |i: usize| format!("n{i:03}");
        let nonempty = |k: &str, v: Value, base: Value| {
            let mut b = base;
            if n > 0 {
                b[k] = v;
            }
            b
        };
        let empty = json!({ "responses": {} });
        let o = Operation {
            tags: (0..n).rev().map(name).collect(),
            ..Default::default()
        };
        same(&mut r, "many tags", &o, &nonempty("tags", (0..n).rev().map(|i| json!(name(i))).collect(), empty.clone()));
        let o = Operation {
            security: (0..n).map(|i| (0..i).map(|k| (name(k), (0..k % 5).map(name).collect())).collect()).collect(),
            ..Default::default()
        };
        let want: Value = (0..n)
            .map(|i| Value::Object((0..i).map(|k| (name(k), (0..k % 5).map(|x| json!(name(x))).collect())).collect()))
            .collect();
        same(&mut r, "many security alternatives", &o, &nonempty("security", want, empty.clone()));
        let picked: Vec<(String, Pair<OperationParameter>)> = (0..n).map(|i| (name(i), ps[i * 7 % ps.len()].clone())).collect();
        let list: Value = picked.iter().map(|(n, p)| named(n, p)).collect();
        let map: BTreeMap<String, OperationParameter> = picked.iter().map(|(n, p)| (n.clone(), p.0.clone())).collect();
        let o = Operation {
            parameters: map.clone(),
            ..Default::default()
        };
        same(&mut r, "many parameters", &o, &nonempty("parameters", list.clone(), empty.clone()));
        let v = PathValue {
            parameters: map,
            ..Default::default()
        };
        same(&mut r, "many path parameters", &v, &nonempty("parameters", list, json!({})));
        let mut o = Operation::default();
        let mut v = json!({ "responses": {} });
        for i in 0..n {
            let x = &rs[i % rs.len()];
            o.responses.insert(i as u16 * 11, x.0.clone());
            v["responses"][(i * 11).to_string()] = x.1.clone();
        }
        same(&mut r, "many responses", &o, &v);
        let segs = Path((0..n).map(|i| if i % 2 == 0 { PathElement::Path(name(i)) } else { PathElement::Parameter(name(i)) }).collect());
        let text: String = (0..n).map(|i| if i % 2 == 0 { format!("/{}", name(i)) } else { format!("/{{{}}}", name(i)) }).collect();
        same(&mut r, "long path", &segs, &json!(text));
        let items: Vec<(Path, PathValue)> = (0..n).rev().map(|i| (Path(vec![PathElement::Path(name(i))]), pv[i % pv.len()].0.clone())).collect();
        let names: Vec<String> = (0..n).rev().map(|i| format!("/{}", name(i))).collect();
        let itemsj = Value::Object((0..n).map(|i| (format!("/{}", name(i)), pv[i % pv.len()].1.clone())).collect());
        let cb = CallbackObject { paths: items.clone() };
        same(&mut r, "many callback paths", &cb, &itemsj);
        let callbacks: BTreeMap<String, CallbackObject> = (0..n).map(|i| (name(i), CallbackObject { paths: items[..i.min(2)].to_vec() })).collect();
        let cbj = Value::Object(
            (0..n)
                .map(|i| {
                    let v = names[..i.min(2)].iter().map(|k| (k.clone(), itemsj[k.as_str()].clone())).collect();
                    (name(i), Value::Object(v))
                })
                .collect(),
        );
        let o = Operation {
            callbacks,
            ..Default::default()
        };
        same(&mut r, "many callbacks", &o, &nonempty("callbacks", cbj, empty));
        let mut components = Components::new();
        let mut cj = json!({});
        let (ms, ss) = (models(), schemes());
        for i in 0..n {
            components.schemas.insert(name(i), ms[i % ms.len()].0.clone());
            components.security_schemes.insert(name(i), ss[i % ss.len()].0.clone());
            cj["schemas"][name(i)] = ms[i % ms.len()].1.clone();
            cj["securitySchemes"][name(i)] = ss[i % ss.len()].1.clone();
        }
        let doc = Opg {
            tags: (0..n).map(|i| (name(i), Tag { description: (i % 2 == 0).then(|| name(i)) })).collect(),
            servers: (0..n).rev().map(|i| Server { url: name(i), description: (i % 2 == 0).then(|| name(i)) }).collect(),
            paths: items,
            components,
            ..Default::default()
        };
        let described = |k: &str, i: usize| {
            let mut v = json!({ k: name(i) });
            put(&mut v, "description", (i % 2 == 0).then(|| json!(name(i))));
            v
        };
        let mut want = json!({ "openapi": "3.0.3", "info": { "title": "", "version": "" }, "components": cj });
        if n > 0 {
            want["tags"] = (0..n).map(|i| described("name", i)).collect();
            want["servers"] = (0..n).rev().map(|i| described("url", i)).collect();
            want["paths"] = itemsj;
        }
        same(&mut r, "large document", &doc, &want);
        if let Ok(Ok(raw)) = guard(|| serde_json::to_string(&doc)) {
            ordered(&mut r, "large document", &raw, &names);
        }
    }
    r.extra.insert(
        "bounds".into(),
        json!({ "path segments": 3, "paths": if deep() { 4 } else { 3 }, "method sets": 256, "operation parts": 10 }),
    );
    r.finish();
}
