//! Serialization of every schema value up to a depth against the OpenAPI object an
//! abstract schema stands for.
use std::collections::HashMap;

use opg::Components;
use rt::*;

/// Raw serialization, so that repeated keys are seen.
fn keys_once(raw: &str, v: &Value) -> bool {
    // a document with a repeated key is longer than its parsed form
    raw.len() == v.to_string().len()
}

fn no_null(v: &Value) -> bool {
    match v {
        Value::Null => false,
        Value::Array(a) => a.iter().all(no_null),
        Value::Object(o) => o.values().all(no_null),
        _ => true,
    }
}

struct Check {
    r: Report,
    seen: HashMap<String, S>,
}

impl Check {
    fn one(&mut self, x: &S) {
        let r = &mut self.r;
        r.state();
        let want = x.json();
        let reference = x.to_ref();
        let got = js(&reference);
        r.step();
        let key = format!("{x:?}");
        r.expect(&key, &got, &want);
        if !no_null(&got) {
            r.problem(key.clone(), format!("{key} serializes with a null: {got}"), json!(got));
        }
        match guard(|| serde_json::to_string(&reference)) {
            Ok(Ok(raw)) => {
                if !keys_once(&raw, &got) {
                    r.problem(key.clone(), format!("{key} serializes with a repeated key: {raw}"), json!(raw));
                }
            }
            other => r.problem(key.clone(), format!("{key} does not serialize to text: {other:?}"), json!(null)),
        }
        r.step();
        if let Some(e) = yaml_problem(&reference, &want) {
            r.problem(key.clone(), format!("{key}: {e}"), json!(e));
        }
        if let S::M(m) = x {
            r.step();
            r.expect(&format!("model {key}"), &js(&m.to_model()), &want);
            // and inside of a registry
            let mut cx = Components::new();
            cx.add_model("N", m.to_model());
            r.step();
            r.expect(&format!("component {key}"), &js(&cx), &json!({ "schemas": { "N": want } }));
        }
        let text = got.to_string();
        match self.seen.get(&text) {
            Some(y) if normal(y) != normal(x) => {
                r.problem(key.clone(), format!("{x:?} and {y:?} both serialize to {text}"), json!(text))
            }
            Some(_) => {}
            None => {
                self.seen.insert(text, x.clone());
            }
        }
        r.sample(|| json!({ "schema": key, "json": want }));
    }
}

/// Property lists are sets.
fn normal(x: &S) -> S {
    match x {
        S::M(m) => {
            let mut m = (**m).clone();
            if let Sd::Obj { props, .. } = &mut m.data {
                props.sort_by(|a, b| a.0.cmp(&b.0));
            }
            S::M(Box::new(m))
        }
        x => x.clone(),
    }
}

fn opts(xs: &[&str]) -> Vec<Option<String>> {
    let mut out = vec![None];
    out.extend(xs.iter().map(|x| s(x)));
    out
}

fn leaves(rich: bool) -> Vec<S> {
    let texts: &[&str] = if rich { &["", "t", "null", "é\"\\\n"] } else { &["t"] };
    let mut out = vec![S::Any];
    for n in ["A", "", "a/b", "A<B>", "é"] {
        out.push(S::link(n));
    }
    let flags = [false, true];
    for desc in opts(texts) {
        let mut push = |data| {
            out.push(S::M(Box::new(Sm {
                desc: desc.clone(),
                data,
            })))
        };
        for nullable in flags {
            push(Sd::Bool { nullable });
            for format in opts(texts) {
                for example in opts(texts) {
                    for integer in flags {
                        push(Sd::Num {
                            integer,
                            nullable,
                            format: format.clone(),
                            example: example.clone(),
                        });
                    }
                    for variants in [None, Some(vec![]), Some(vec!["v".to_string()]), Some(vec!["w".into(), "v".into()]), Some(vec!["v".into(), "v".into(), "".into()])] {
                        push(Sd::Str {
                            nullable,
                            format: format.clone(),
                            example: example.clone(),
                            variants,
                        });
                    }
                }
            }
        }
    }
    out
}

/// Every composite over the given parts.
fn composites(parts: &[S], wide: &[S], rich: bool) -> Vec<S> {
    let mut out = Vec::new();
    let names: &[&str] = if rich { &["p", "type", "$ref", "nullable", "description", ""] } else { &["p"] };
    let descs = if rich { opts(&["", "d"]) } else { vec![None, s("d")] };
    for desc in &descs {
        let mut push = |data| {
            out.push(S::M(Box::new(Sm {
                desc: desc.clone(),
                data,
            })))
        };
        push(Sd::OneOf(vec![]));
        push(Sd::AllOf(vec![]));
        push(Sd::AnyOf(vec![]));
        for nullable in [false, true] {
            push(Sd::Obj {
                nullable,
                props: vec![],
                extra: None,
                required: vec![],
            });
            for x in parts {
                push(Sd::Arr {
                    nullable,
                    items: x.clone(),
                });
                for n in names {
                    for required in [vec![], vec![n.to_string()], vec!["z".to_string(), n.to_string()]] {
                        push(Sd::Obj {
                            nullable,
                            props: vec![(n.to_string(), x.clone())],
                            extra: None,
                            required,
                        });
                    }
                }
                push(Sd::Obj {
                    nullable,
                    props: vec![],
                    extra: Some(x.clone()),
                    required: vec![],
                });
                push(Sd::Obj {
                    nullable,
                    props: vec![],
                    extra: Some(x.clone()),
                    required: vec!["q".into()],
                });
                for y in wide {
                    push(Sd::Obj {
                        nullable,
                        props: vec![("p".into(), x.clone())],
                        extra: Some(y.clone()),
                        required: vec![],
                    });
                    push(Sd::Obj {
                        nullable,
                        props: vec![("p".into(), x.clone()), ("q".into(), y.clone())],
                        extra: None,
                        required: vec!["q".into()],
                    });
                    push(Sd::Obj {
                        nullable,
                        props: vec![("b".into(), x.clone()), ("a".into(), y.clone()), ("c".into(), x.clone())],
                        extra: Some(y.clone()),
                        required: vec!["b".into(), "a".into()],
                    });
                }
            }
        }
        for x in parts {
            push(Sd::OneOf(vec![x.clone()]));
            push(Sd::AllOf(vec![x.clone()]));
            push(Sd::AnyOf(vec![x.clone()]));
            for y in wide {
                push(Sd::OneOf(vec![x.clone(), y.clone()]));
                push(Sd::AllOf(vec![x.clone(), y.clone()]));
                push(Sd::AnyOf(vec![x.clone(), y.clone()]));
                push(Sd::AnyOf(vec![y.clone(), x.clone(), x.clone()]));
            }
        }
    }
    out
}

fn main() {
    let mut c = Check {
        r: Report::new(),
        seen: HashMap::new(),
    };
    let rich = leaves(true);
    for x in &rich {
        c.one(x);
    }
    let base = leaves(false);
    let few: Vec<S> = vec![
        S::link("A"),
        S::Any,
        S::plain_str(),
        null(),
        S::of(Sd::Bool { nullable: true }),
    ];
    let depth1 = composites(&base, &few, false);
    for x in depth1.iter().chain(&composites(&few, &few, true)) {
        c.one(x);
    }
    // depth 2: every composite inside of every composite
    let small1 = composites(&few, &few[..2], false);
    let inner: &[S] = if deep() { &depth1 } else { &small1 };
    for x in composites(inner, &few[..2], false) {
        c.one(&x);
    }
    // depth 3: unary contexts
    let outer: &[S] = if deep() { &few[..2] } else { &few[..1] };
    for x in composites(&small1, outer, false).iter() {
        for y in contexts(x, true) {
            c.one(&y);
        }
    }
    // wide objects and lists: all subsets of properties required
    let props: Vec<(String, S)> = (0..6).map(|i| (format!("p{i}"), few[i % few.len()].clone())).collect();
    for mask in 0..64u32 {
        for req in 0..64u32 {
            if req & !mask != 0 {
                continue;
            }
            let pick = |m: u32| (0..6).filter(move |i| m >> i & 1 == 1);
            c.one(&S::of(Sd::Obj {
                nullable: false,
                props: pick(mask).map(|i| props[i].clone()).collect(),
                extra: None,
                required: pick(req).map(|i| format!("p{i}")).collect(),
            }));
        }
    }
    // all lists, in any order and with repetitions: required names (of properties or not), values and alternatives
    let top = if deep() { 5 } else { 4 };
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..top {
        let to = lists.len();
        for i in from..to {
            for k in 0..4 {
                let mut next = lists[i].clone();
                next.push(k);
                lists.push(next);
            }
        }
        from = to;
    }
    let names = ["b", "a", "", "B"];
    for list in &lists {
        let texts: Vec<String> = list.iter().map(|k| names[*k].to_string()).collect();
        for owned in 0..4 {
            for extra in [None, Some(S::Any)] {
                c.one(&S::of(Sd::Obj {
                    nullable: false,
                    props: names[..owned].iter().map(|n| (n.to_string(), S::link(n))).collect(),
                    extra,
                    required: texts.clone(),
                }));
            }
        }
        for nullable in [false, true] {
            c.one(&S::of(Sd::Str {
                nullable,
                format: None,
                example: texts.first().cloned(),
                variants: Some(texts.clone()),
            }));
        }
        let parts: Vec<S> = list.iter().map(|k| few[*k].clone()).collect();
        c.one(&S::of(Sd::OneOf(parts.clone())));
        c.one(&S::of(Sd::AllOf(parts.clone())));
        c.one(&S::of(Sd::AnyOf(parts)));
    }
    // every word at every position of a text
    for w in words() {
        let t = || Some(w.clone());
        c.one(&S::link(&w));
        for data in [
            Sd::Bool { nullable: false },
            Sd::OneOf(vec![S::link("A")]),
            Sd::AllOf(vec![S::link("A")]),
            Sd::AnyOf(vec![S::link("A")]),
            Sd::Arr {
                nullable: false,
                items: S::Any,
            },
        ] {
            c.one(&S::M(Box::new(Sm { desc: t(), data })));
        }
        for (format, example) in [(t(), None), (None, t()), (t(), t())] {
            for nullable in [false, true] {
                for integer in [false, true] {
                    c.one(&S::of(Sd::Num {
                        integer,
                        nullable,
                        format: format.clone(),
                        example: example.clone(),
                    }));
                }
                c.one(&S::of(Sd::Str {
                    nullable,
                    format: format.clone(),
                    example: example.clone(),
                    variants: None,
                }));
            }
        }
        for variants in [vec![w.clone()], vec![w.clone(), "a".into()], vec!["a".into(), w.clone(), w.clone()]] {
            c.one(&S::of(Sd::Str {
                nullable: false,
                format: None,
                example: None,
                variants: Some(variants),
            }));
        }
        for required in [vec![], vec![w.clone()], vec!["~q".into(), w.clone()]] {
            for extra in [None, Some(S::Any)] {
                c.one(&S::of(Sd::Obj {
                    nullable: false,
                    props: vec![(w.clone(), S::link(&w)), ("~q".into(), S::plain_str())],
                    extra,
                    required: required.clone(),
                }));
            }
        }
    }
    for x in &few {
        for y in sizes(x) {
            c.one(&y);
        }
    }
    let mut r = c.r;
    r.extra.insert("bounds".into(), json!({ "nesting": 3, "properties": 6, "alternatives": 3 }));
    r.outcomes = c.seen.into_keys().collect();
    r.finish();
}
