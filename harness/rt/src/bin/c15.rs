//! Merging of object schemas: all pairs, and the closed state graph of histories.
use std::collections::{BTreeMap, HashMap, VecDeque};

use opg::*;
use rt::*;

type Props = Vec<(String, S)>;

fn obj(props: Props, extra: Option<S>, required: Vec<String>) -> Sm {
    Sm { desc: None, data: Sd::Obj { nullable: false, props, extra, required } }
}

fn parts(m: &Sm) -> (&Props, &Option<S>, &Vec<String>) {
    match &m.data {
        Sd::Obj { props, extra, required, .. } => (props, extra, required),
        _ => unreachable!(),
    }
}

fn is_obj(m: &Sm) -> bool {
    matches!(m.data, Sd::Obj { .. })
}

/// The reference: a disjoint union, or nothing.
fn union(a: &Sm, b: &Sm) -> Option<Sm> {
    if !is_obj(a) || !is_obj(b) {
        return None;
    }
    let (pa, ea, ra) = parts(a);
    let (pb, eb, rb) = parts(b);
    if pa.iter().any(|(k, _)| pb.iter().any(|(l, _)| k == l)) || (ea.is_some() && eb.is_some()) {
        return None;
    }
    let mut out = a.clone();
    if let Sd::Obj { props, extra, required, .. } = &mut out.data {
        *props = pa.iter().chain(pb).cloned().collect();
        *extra = ea.clone().or(eb.clone());
        *required = ra.iter().chain(rb).cloned().collect();
    }
    Some(out)
}

/// The order of `required` carries no meaning.
fn norm(mut v: Value) -> Value {
    if let Some(r) = v.get_mut("required").and_then(|x| x.as_array_mut()) {
        r.sort_by_key(|x| x.to_string());
    }
    v
}

fn objects(names: &[&str], schemas: &[S]) -> Vec<Sm> {
    let mut out = vec![obj(vec![], None, vec![])];
    for n in names {
        let mut next = Vec::new();
        for o in &out {
            next.push(o.clone());
            let (p, e, r) = parts(o);
            for sch in schemas {
                for req in [false, true] {
                    let mut p = p.clone();
                    let mut r = r.clone();
                    p.push((n.to_string(), sch.clone()));
                    if req {
                        r.push(n.to_string());
                    }
                    next.push(obj(p, e.clone(), r));
                }
            }
        }
        out = next;
    }
    let mut all = Vec::new();
    for o in &out {
        let (p, _, r) = parts(o);
        for e in [None, Some(S::Any), Some(S::plain_str())] {
            all.push(obj(p.clone(), e, r.clone()));
        }
    }
    all
}

fn main() {
    let mut r = Report::new();
    let schemas = vec![S::plain_str(), S::link("A")];
    let names: &[&str] = if deep() { &["a", "b", "c"] } else { &["a", "b"] };
    let objs = objects(names, &schemas);
    // names may be required without being properties
    let loose = |xs: &[&str]| -> Vec<Sm> {
        let mut out = objs.clone();
        for o in &objs {
            let (p, e, q) = parts(o);
            for x in xs {
                if !q.iter().any(|y| y == x) {
                    for front in [false, true] {
                        let mut q = q.clone();
                        q.insert(if front { 0 } else { q.len() }, x.to_string());
                        out.push(obj(p.clone(), e.clone(), q));
                    }
                }
            }
        }
        out
    };
    let (lefts, rights) = (loose(&["x", "a"]), loose(&["y", "a"]));
    // all pairs: ModelObject::merge and Model::try_merge
    for a in &lefts {
        r.state();
        for b in &rights {
            let want = union(a, b);
            if want.is_some() && parts(a).2.iter().any(|x| parts(b).2.contains(x)) {
                continue; // a name required on both sides without being a property of both
            }
            r.step();
            let key = format!("{} <- {}", a.json(), b.json());
            let mut o = a.to_object();
            let before = js(&o);
            match guard(|| o.merge(b.to_object()).is_ok()) {
                Err(e) => r.problem(key.clone(), format!("merge panics: {e}"), json!(null)),
                Ok(ok) => {
                    if ok != want.is_some() {
                        r.problem(key.clone(), format!("merge {key} returned {}", if ok { "Ok" } else { "Err" }), json!(null));
                    }
                    let expected = match &want {
                        Some(w) => norm(js(&w.to_object())),
                        None => norm(before),
                    };
                    r.expect(&key, &norm(js(&o)), &expected);
                }
            }
            for (da, na, db, nb) in [(None, false, None, false), (s("da"), true, s("db"), false), (s("da"), false, None, true), (None, false, s("db"), true)] {
                let deco = |m: &Sm, d: &Option<String>, n: bool| {
                    let mut m = m.clone();
                    m.desc = d.clone();
                    if let Sd::Obj { nullable, .. } = &mut m.data {
                        *nullable = n;
                    }
                    m
                };
                let (ma, mb) = (deco(a, &da, na), deco(b, &db, nb));
                let want = union(&ma, &mb);
                let mut m = ma.to_model();
                let ok = guard(|| m.try_merge(mb.to_model()).is_ok()).unwrap_or(want.is_none());
                if ok != want.is_some() {
                    r.problem(key.clone(), format!("try_merge {key} returned {}", if ok { "Ok" } else { "Err" }), json!(null));
                }
                let got = norm(js(&m));
                r.expect(&format!("try_merge {key}"), &got, &norm(want.unwrap_or(ma).json()));
                r.outcome(&got);
            }
            r.sample(|| json!({ "target": a.json(), "other": b.json(), "merged": want.as_ref().map(|w| w.json()) }));
        }
    }
    // models of every form
    let mut forms: Vec<Sm> = objs.iter().take(12).cloned().collect();
    for nullable in [false, true] {
        forms.push(Sm { desc: s("s"), data: Sd::Str { nullable, format: None, example: None, variants: None } });
        forms.push(Sm { desc: None, data: Sd::Num { integer: true, nullable, format: None, example: None } });
        forms.push(Sm { desc: None, data: Sd::Num { integer: false, nullable, format: None, example: None } });
        forms.push(Sm { desc: None, data: Sd::Bool { nullable } });
        forms.push(Sm { desc: None, data: Sd::Arr { nullable, items: S::Any } });
    }
    for inner in [vec![], vec![S::M(Box::new(objs[1].clone()))], vec![S::link("A"), S::Any]] {
        forms.push(Sm { desc: s("o"), data: Sd::OneOf(inner.clone()) });
        forms.push(Sm { desc: None, data: Sd::AllOf(inner.clone()) });
        forms.push(Sm { desc: None, data: Sd::AnyOf(inner) });
    }
    for a in &forms {
        r.state();
        for b in &forms {
            r.step();
            let key = format!("try_merge {} <- {}", a.json(), b.json());
            let want = union(a, b);
            let mut m = a.to_model();
            match guard(|| m.try_merge(b.to_model()).is_ok()) {
                Ok(ok) if ok == want.is_some() => {}
                other => r.problem(key.clone(), format!("{key} returned {other:?}"), json!(null)),
            }
            r.expect(&key, &norm(js(&m)), &norm(want.unwrap_or_else(|| a.clone()).json()));
        }
    }
    // every kind of schema with every other
    let all_models = zoo();
    for a in &all_models {
        r.state();
        for b in &all_models {
            if is_obj(a) && is_obj(b) && parts(a).2.iter().any(|x| parts(b).2.contains(x)) && union(a, b).is_some() {
                continue; // a name required on both sides without being a property of both
            }
            r.step();
            let key = format!("try_merge {} <- {}", a.json(), b.json());
            let want = union(a, b);
            let mut m = a.to_model();
            match guard(|| m.try_merge(b.to_model()).is_ok()) {
                Ok(ok) if ok == want.is_some() => {}
                other => r.problem(key.clone(), format!("{key} returned {other:?}"), json!(null)),
            }
            r.expect(&key, &norm(js(&m)), &norm(want.unwrap_or_else(|| a.clone()).json()));
        }
        if is_obj(a) {
            for n in ["p", "q", "x", "loose", ""] {
                for sch in [S::Any, S::link("A"), null()] {
                    for req in [false, true] {
                        if req && parts(a).2.iter().any(|x| x == n) && !parts(a).0.iter().any(|(x, _)| x == n) {
                            continue;
                        }
                        r.step();
                        let one = obj(vec![(n.to_string(), sch.clone())], None, if req { vec![n.to_string()] } else { vec![] });
                        let want = union(a, &one);
                        let mut o = a.to_object();
                        let ok = guard(|| o.add_property(n.to_string(), sch.to_ref(), req).is_ok());
                        let key = format!("add {n:?} {} {req} to {}", sch.json(), a.json());
                        if ok != Ok(want.is_some()) {
                            r.problem(key.clone(), format!("{key}: returned {ok:?}"), json!(null));
                        }
                        r.expect(&key, &norm(js(&o)), &norm(js(&want.unwrap_or_else(|| a.clone()).to_object())));
                    }
                }
            }
        }
    }
    // histories: every reachable object under merges and insertions
    let alphabet = objects(&["a", "b", "c"], &schemas[..1]);
    let alphabet: Vec<Sm> = alphabet.into_iter().filter(|m| parts(m).0.len() <= 2).collect();
    let mut adds = Vec::new();
    for n in ["a", "b", "c", ""] {
        for sch in &schemas {
            for req in [false, true] {
                adds.push((n.to_string(), sch.clone(), req));
            }
        }
    }
    let start = obj(vec![], None, vec![]);
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut queue: VecDeque<(Sm, ModelObject, usize)> = VecDeque::new();
    seen.insert(norm(js(&start.to_object())).to_string(), 0);
    queue.push_back((start.clone(), start.to_object(), 0));
    let mut longest = 0;
    while let Some((reference, real, depth)) = queue.pop_front() {
        r.state();
        longest = longest.max(depth);
        let mut succ: Vec<(String, Option<Sm>, ModelObject, Result<bool, String>)> = Vec::new();
        for b in &alphabet {
            let mut o = real.clone();
            let ok = guard(|| o.merge(b.to_object()).is_ok());
            succ.push((format!("merge {}", b.json()), union(&reference, b), o, ok));
        }
        for (n, sch, req) in &adds {
            let mut o = real.clone();
            let ok = guard(|| o.add_property(n.clone(), sch.to_ref(), *req).is_ok());
            let one = obj(vec![(n.clone(), sch.clone())], None, if *req { vec![n.clone()] } else { vec![] });
            succ.push((format!("add {n:?} {} {req}", sch.json()), union(&reference, &one), o, ok));
        }
        for (op, want, got, ok) in succ {
            r.step();
            let key = format!("{} ; {op}", js(&real));
            if ok != Ok(want.is_some()) {
                r.problem(key.clone(), format!("{key}: returned {ok:?}"), json!(null));
            }
            let next = want.unwrap_or_else(|| reference.clone());
            let gotj = norm(js(&got));
            r.expect(&key, &gotj, &norm(js(&next.to_object())));
            // a merged name is required at most once
            let mut count: BTreeMap<&String, u32> = BTreeMap::new();
            got.required.iter().for_each(|x| *count.entry(x).or_default() += 1);
            if count.values().any(|x| *x > 1) {
                r.problem(key.clone(), format!("{key}: a name is required twice"), js(&got));
            }
            let text = gotj.to_string();
            if r.problems.len() < 20 && !seen.contains_key(&text) {
                seen.insert(text, depth + 1);
                queue.push_back((next, got, depth + 1));
            }
        }
    }
    // names of every form: equal names clash, different ones never do
    let known = words();
    let single = |n: &str| obj(vec![(n.to_string(), S::plain_str())], None, vec![n.to_string()]);
    for a in &known {
        r.state();
        let real = single(a).to_object();
        for b in known.iter().take(if deep() { known.len() } else { 760 }) {
            r.step();
            let mut o = real.clone();
            let ok = guard(|| o.add_property(b.clone(), ModelReference::Any, true).is_ok());
            let mut q = real.clone();
            let merged = guard(|| q.merge(single(b).to_object()).is_ok());
            let names: Vec<&String> = if a == b { vec![a] } else { vec![a, b] };
            let key = format!("{a:?} {b:?}");
            for (what, ok, o) in [("add", ok, o), ("merge", merged, q)] {
                let mut have: Vec<&String> = o.properties.keys().collect();
                let mut req: Vec<&String> = o.required.iter().collect();
                let mut want = names.clone();
                have.sort();
                req.sort();
                want.sort();
                if ok != Ok(a != b) || have != want || req != want {
                    r.problem(key.clone(), format!("{what} {b:?} to an object with {a:?}: {ok:?}, {}", js(&o)), js(&o));
                }
            }
        }
    }
    // every size, disjoint or with one clash at every position
    let top = if deep() { 80 } else { 40 };
    for n in 0..top {
        let left = obj((0..n).map(|i| (format!("l{i:02}"), S::link("A"))).collect(), None, (0..n).map(|i| format!("l{i:02}")).collect());
        for k in [0usize, 1, 2, 7, 8, 9, 16, 17, 33] {
            for clash in (0..=n.min(k)).rev() {
                let right: Props = (0..k).map(|i| (if i < n && i + 1 == clash { format!("l{i:02}") } else { format!("r{i:02}") }, S::plain_str())).collect();
                let required = right.iter().step_by(2).map(|p| p.0.clone()).collect();
                let right = obj(right, Some(S::Any), required);
                r.state();
                for (a, b) in [(&left, &right), (&right, &left)] {
                    r.step();
                    let mut o = a.to_object();
                    let ok = guard(|| o.merge(b.to_object()).is_ok());
                    let want = union(a, b);
                    let key = format!("{n} properties with {k}, clash at {clash}");
                    if ok != Ok(want.is_some()) {
                        r.problem(key.clone(), format!("{key}: returned {ok:?}"), json!(null));
                    }
                    r.expect(&key, &norm(js(&o)), &norm(js(&want.unwrap_or_else(|| a.clone()).to_object())));
                }
            }
        }
    }
    r.extra.insert("bounds".into(), json!({ "properties": names.len(), "objects in pairs": objs.len(),
        "history length": "unbounded (state graph closed)", "longest_shortest_history": longest, "registry_states": seen.len() }));
    r.finish();
}
