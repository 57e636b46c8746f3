//! Exhaustive explorers over the runtime part of the library, with an independent
//! abstract syntax of schemas (`S`) from which both the library's value
//! (`to_ref`, `to_model`) and the JSON a user is entitled to (`json`) are derived.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use opg::*;
pub use serde_json::{json, Map, Value};

pub fn deep() -> bool {
    std::env::args().nth(1).as_deref() == Some("thorough")
}

#[derive(Default)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub outcomes: HashSet<String>,
    pub problems: Vec<(String, String, Value)>,
    pub samples: Vec<Value>,
    pub extra: Map<String, Value>,
    sample_at: u64,
}

impl Report {
    pub fn new() -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        Report {
            sample_at: 1,
            ..Default::default()
        }
    }

    pub fn state(&mut self) {
        self.states += 1;
    }

    pub fn step(&mut self) {
        self.transitions += 1;
    }

    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.transitions >= self.sample_at && self.samples.len() < 5 {
            self.sample_at = self.sample_at * 20 + 7;
            self.samples.push(f());
        }
    }

    pub fn outcome(&mut self, v: &Value) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(v.to_string());
        }
    }

    pub fn problem(&mut self, key: impl Into<String>, what: impl Into<String>, detail: Value) {
        if self.problems.len() < 50 {
            self.problems.push((key.into(), what.into(), detail));
        }
    }

    /// Compares an observation with the reference.
    pub fn expect(&mut self, key: &str, observed: &Value, expected: &Value) {
        if observed != expected {
            self.problem(
                key,
                format!("{key}: expected {expected}, got {observed}"),
                json!({ "expected": expected, "observed": observed }),
            );
        }
    }

    pub fn finish(self) {
        let mut extra = self.extra;
        extra.insert("states".into(), json!(self.states));
        extra.insert("transitions".into(), json!(self.transitions));
        extra.insert("distinct_outcomes".into(), json!(self.outcomes.len()));
        extra.insert("samples".into(), json!(self.samples));
        extra.insert(
            "problems".into(),
            self.problems
                .into_iter()
                .map(|(k, w, d)| json!({ "key": k, "what": w, "detail": d }))
                .collect(),
        );
        println!("REPORT {}", Value::Object(extra));
    }
}

/// Runs library code which must not panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn js<T: serde::Serialize + ?Sized>(v: &T) -> Value {
    match guard(|| serde_json::to_value(v)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({ "serialization fails": e.to_string() }),
        Err(e) => json!({ "serialization panics": e }),
    }
}

/// YAML with the keys as JSON would write them.
fn unyaml(v: serde_yaml::Value) -> Value {
    use serde_yaml::Value as Y;
    match v {
        Y::Null => Value::Null,
        Y::Bool(b) => json!(b),
        Y::Number(n) => serde_json::to_value(n).unwrap_or(Value::Null),
        Y::String(s) => json!(s),
        Y::Sequence(items) => items.into_iter().map(unyaml).collect(),
        Y::Mapping(map) => Value::Object(
            map.into_iter()
                .map(|(k, v)| {
                    let k = match unyaml(k) {
                        Value::String(s) => s,
                        other => other.to_string(),
                    };
                    (k, unyaml(v))
                })
                .collect(),
        ),
    }
}

/// What is wrong with the YAML of a value whose JSON is known. The text is compared with the text of the YAML value,
/// so that the faults of the writer of YAML do not count.
pub fn yaml_problem<T: serde::Serialize + ?Sized>(v: &T, json: &Value) -> Option<String> {
    let value = match guard(|| serde_yaml::to_value(v)) {
        Ok(Ok(value)) => value,
        other => return Some(format!("there is no YAML: {other:?}")),
    };
    match guard(|| serde_yaml::to_string(v)) {
        Ok(Ok(text)) => {
            let own = serde_yaml::to_string(&value).unwrap_or_default();
            if text != own {
                return Some(format!("the YAML text is {text:?}, that of its value {own:?}"));
            }
        }
        other => return Some(format!("there is no YAML text: {other:?}")),
    }
    let value = unyaml(value);
    (&value != json).then(|| format!("the YAML is {value}, the JSON {json}"))
}

// ------------------------------------------------------------ abstract schemas

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Ref(String),
    Any,
    M(Box<Sm>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sm {
    pub desc: Option<String>,
    pub data: Sd,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sd {
    Str {
        nullable: bool,
        format: Option<String>,
        example: Option<String>,
        variants: Option<Vec<String>>,
    },
    Num {
        integer: bool,
        nullable: bool,
        format: Option<String>,
        example: Option<String>,
    },
    Bool {
        nullable: bool,
    },
    Arr {
        nullable: bool,
        items: S,
    },
    Obj {
        nullable: bool,
        props: Vec<(String, S)>,
        extra: Option<S>,
        required: Vec<String>,
    },
    OneOf(Vec<S>),
    AllOf(Vec<S>),
    AnyOf(Vec<S>),
}

pub fn s(x: &str) -> Option<String> {
    Some(x.to_string())
}

impl S {
    pub fn of(data: Sd) -> S {
        S::M(Box::new(Sm { desc: None, data }))
    }

    pub fn plain_str() -> S {
        S::of(Sd::Str {
            nullable: false,
            format: None,
            example: None,
            variants: None,
        })
    }

    pub fn link(n: &str) -> S {
        S::Ref(n.to_string())
    }

    pub fn to_ref(&self) -> ModelReference {
        match self {
            S::Ref(n) => ModelReference::Link(n.clone()),
            S::Any => ModelReference::Any,
            S::M(m) => ModelReference::Inline(m.to_model()),
        }
    }

    pub fn json(&self) -> Value {
        match self {
            S::Ref(n) => json!({ "$ref": format!("#/components/schemas/{n}") }),
            S::Any => json!({}),
            S::M(m) => m.json(),
        }
    }

    pub fn links(&self, out: &mut Vec<String>) {
        match self {
            S::Ref(n) => out.push(n.clone()),
            S::Any => {}
            S::M(m) => m.links(out),
        }
    }
}

impl Sm {
    pub fn to_model(&self) -> Model {
        let refs = |v: &Vec<S>| v.iter().map(S::to_ref).collect::<Vec<_>>();
        let single = |nullable: bool, type_description: ModelTypeDescription| {
            ModelData::Single(ModelType {
                nullable,
                type_description,
            })
        };
        let data = match &self.data {
            Sd::Str {
                nullable,
                format,
                example,
                variants,
            } => single(
                *nullable,
                ModelTypeDescription::String(ModelString {
                    variants: variants.clone(),
                    data: ModelSimple {
                        format: format.clone(),
                        example: example.clone(),
                    },
                }),
            ),
            Sd::Num {
                integer,
                nullable,
                format,
                example,
            } => {
                let data = ModelSimple {
                    format: format.clone(),
                    example: example.clone(),
                };
                single(
                    *nullable,
                    if *integer {
                        ModelTypeDescription::Integer(data)
                    } else {
                        ModelTypeDescription::Number(data)
                    },
                )
            }
            Sd::Bool { nullable } => single(*nullable, ModelTypeDescription::Boolean),
            Sd::Arr { nullable, items } => single(
                *nullable,
                ModelTypeDescription::Array(ModelArray {
                    items: Box::new(items.to_ref()),
                }),
            ),
            Sd::Obj { nullable, .. } => {
                single(*nullable, ModelTypeDescription::Object(self.to_object()))
            }
            Sd::OneOf(v) => ModelData::OneOf(ModelOneOf { one_of: refs(v) }),
            Sd::AllOf(v) => ModelData::AllOf(ModelAllOf { all_of: refs(v) }),
            Sd::AnyOf(v) => ModelData::AnyOf(ModelAnyOf { any_of: refs(v) }),
        };
        Model {
            description: self.desc.clone(),
            data,
        }
    }

    /// Only for objects.
    pub fn to_object(&self) -> ModelObject {
        match &self.data {
            Sd::Obj {
                props,
                extra,
                required,
                ..
            } => ModelObject {
                properties: props
                    .iter()
                    .map(|(k, v)| (k.clone(), v.to_ref()))
                    .collect::<BTreeMap<_, _>>(),
                additional_properties: extra.as_ref().map(|x| Box::new(x.to_ref())),
                required: required.clone(),
            },
            _ => unreachable!(),
        }
    }

    pub fn json(&self) -> Value {
        let mut o = Map::new();
        if let Some(d) = &self.desc {
            o.insert("description".into(), json!(d));
        }
        let list = |v: &Vec<S>| Value::Array(v.iter().map(S::json).collect());
        let mut simple = |ty: &str, nullable: bool, format: &Option<String>, example: &Option<String>| {
            o.insert("type".into(), json!(ty));
            if nullable {
                o.insert("nullable".into(), json!(true));
            }
            if let Some(x) = format {
                o.insert("format".into(), json!(x));
            }
            if let Some(x) = example {
                o.insert("example".into(), json!(x));
            }
        };
        match &self.data {
            Sd::Str {
                nullable,
                format,
                example,
                variants,
            } => {
                simple("string", *nullable, format, example);
                if let Some(v) = variants {
                    o.insert("enum".into(), json!(v));
                }
            }
            Sd::Num {
                integer,
                nullable,
                format,
                example,
            } => simple(
                if *integer { "integer" } else { "number" },
                *nullable,
                format,
                example,
            ),
            Sd::Bool { nullable } => simple("boolean", *nullable, &None, &None),
            Sd::Arr { nullable, items } => {
                simple("array", *nullable, &None, &None);
                o.insert("items".into(), items.json());
            }
            Sd::Obj {
                nullable,
                props,
                extra,
                required,
            } => {
                simple("object", *nullable, &None, &None);
                if !props.is_empty() {
                    o.insert(
                        "properties".into(),
                        Value::Object(props.iter().map(|(k, v)| (k.clone(), v.json())).collect()),
                    );
                }
                if let Some(x) = extra {
                    o.insert("additionalProperties".into(), x.json());
                }
                if !required.is_empty() {
                    o.insert("required".into(), json!(required));
                }
            }
            Sd::OneOf(v) => {
                o.insert("oneOf".into(), list(v));
            }
            Sd::AllOf(v) => {
                o.insert("allOf".into(), list(v));
            }
            Sd::AnyOf(v) => {
                o.insert("anyOf".into(), list(v));
            }
        }
        Value::Object(o)
    }

    pub fn links(&self, out: &mut Vec<String>) {
        match &self.data {
            Sd::Arr { items, .. } => items.links(out),
            Sd::Obj { props, extra, .. } => {
                props.iter().for_each(|(_, x)| x.links(out));
                extra.iter().for_each(|x| x.links(out));
            }
            Sd::OneOf(v) | Sd::AllOf(v) | Sd::AnyOf(v) => v.iter().for_each(|x| x.links(out)),
            _ => {}
        }
    }

    pub fn is_single(&self) -> bool {
        !matches!(self.data, Sd::OneOf(_) | Sd::AllOf(_) | Sd::AnyOf(_))
    }
}

/// The schema of `null`.
pub fn null() -> S {
    S::M(Box::new(Sm {
        desc: s("Always `null`"),
        data: Sd::Str {
            nullable: true,
            format: s("null"),
            example: None,
            variants: None,
        },
    }))
}

/// Every way of putting one schema inside another.
pub fn contexts(x: &S, rich: bool) -> Vec<S> {
    let x = || x.clone();
    let mut out = Vec::new();
    let flags: &[(bool, Option<String>)] = &[(false, None), (true, s("d"))];
    for (nullable, desc) in if rich { flags } else { &flags[..1] } {
        let mut push = |data| {
            out.push(S::M(Box::new(Sm {
                desc: desc.clone(),
                data,
            })))
        };
        push(Sd::Arr {
            nullable: *nullable,
            items: x(),
        });
        push(Sd::Obj {
            nullable: *nullable,
            props: vec![("p".into(), x())],
            extra: None,
            required: vec![],
        });
        push(Sd::Obj {
            nullable: *nullable,
            props: vec![],
            extra: Some(x()),
            required: vec![],
        });
        push(Sd::OneOf(vec![x()]));
        push(Sd::AllOf(vec![x()]));
        push(Sd::AnyOf(vec![x()]));
    }
    out
}

/// Every way of putting two schemas inside another.
pub fn contexts2(x: &S, y: &S) -> Vec<S> {
    let (x, y) = (|| x.clone(), || y.clone());
    vec![
        S::of(Sd::Obj {
            nullable: false,
            props: vec![("p".into(), x()), ("q".into(), y())],
            extra: None,
            required: vec!["q".into()],
        }),
        S::of(Sd::Obj {
            nullable: false,
            props: vec![("p".into(), x())],
            extra: Some(y()),
            required: vec!["p".into()],
        }),
        S::of(Sd::OneOf(vec![x(), y()])),
        S::of(Sd::AllOf(vec![x(), y()])),
        S::of(Sd::AnyOf(vec![x(), y()])),
    ]
}

/// Every string of up to two characters over an alphabet of the characters that mean
/// something to JSON, JSON pointers, URLs, paths, identifiers or formatting; words that
/// mean something to OpenAPI; and every length up to a bound.
pub fn words() -> Vec<String> {
    let alphabet: Vec<char> = "aAz09_-./#~%${}<>:, \"\\\n\té\u{1F980}".chars().collect();
    let mut out = vec![String::new()];
    for a in &alphabet {
        out.push(a.to_string());
        for b in &alphabet {
            out.push(format!("{a}{b}"));
        }
    }
    for w in [
        "null", "true", "false", "Any", "any", "None", "type", "$ref", "nullable", "description", "required", "properties",
        "items", "format", "example", "enum", "oneOf", "allOf", "anyOf", "additionalProperties", "string", "object", "array",
        "integer", "number", "boolean", "default", "deprecated", "Always `null`", "#/components/schemas/A", "#/A", "A#/B",
        "components/schemas/A", "schemas", "A::B", "Vec<A>", "Option<A>", "a b", " a ", "aa  ", "{a}", "{{a}}", "{}",
        "%7Ba%7D", "a%20b", "~0~1", "http://a/b?c=d&e#f", "DROP", "Foo", "foo", "FOO", "ſ", "ß", "İ", "uuid", "date", "1e5", "-1",
        "0x10", "NaN", "1.50", "00", "\u{feff}", "\u{200b}", "\r\n", "\0", "data", "value", "key", "name", "in", "title",
    ] {
        out.push(w.to_string());
    }
    // numbers of every width, and other texts which a consumer could take for something else
    for n in 1..45 {
        for d in ["1", "9", "0"] {
            out.push(d.repeat(n));
            out.push(format!("-{}", d.repeat(n)));
            out.push(format!("{}.5", d.repeat(n)));
        }
    }
    for bits in [7u32, 8, 15, 16, 31, 32, 53, 63, 64, 127] {
        for k in [-1i128, 0, 1] {
            let v = if bits == 127 { i128::MAX - 1 + k } else { (1i128 << bits) + k };
            out.push(v.to_string());
            out.push((-v).to_string());
        }
    }
    for w in [
        "2020-06-26", "2020-06-26T14:04:20Z", "12:30:00", "00000000-0000-0000-0000-000000000000", "inf", "-inf", "+1", "1_000", "1,000", "0b1", "0o7", ".5", "5.",
        "yes", "no", "on", "off", "y", "n", "~", "---", "...", "- a", "a: b", "? a", "!a", "&a", "*a", "|", ">", "@a", "`a`", "'a'", "\"a\"", "[a]", "{a: b}", "# a", "=", "<<",
        "undefined", "nil", "NULL", "Null", "True", "FALSE", "[]", "\u{2028}", "\u{85}", "\u{7f}", "\u{1b}", "a\u{301}", "\u{10ffff}",
    ] {
        out.push(w.to_string());
    }
    let longest = if deep() { 1100 } else { 300 };
    for n in 3..longest {
        out.push("x".repeat(n));
    }
    out
}

/// Containers of every size, and chains of every depth, up to a bound.
pub fn sizes(x: &S) -> Vec<S> {
    let (wide, high) = if deep() { (300, 60) } else { (70, 30) };
    let mut out = Vec::new();
    for n in 0..=wide {
        let list: Vec<S> = (0..n).map(|i| if i % 3 == 2 { S::link(&format!("L{i}")) } else { x.clone() }).collect();
        out.push(S::of(Sd::OneOf(list.clone())));
        out.push(S::of(Sd::AllOf(list.clone())));
        out.push(S::of(Sd::AnyOf(list.clone())));
        let props: Vec<(String, S)> = list.into_iter().enumerate().map(|(i, x)| (format!("p{i}"), x)).collect();
        let names: Vec<String> = props.iter().map(|p| p.0.clone()).collect();
        for required in [vec![], names.clone(), names.iter().rev().step_by(2).cloned().collect()] {
            for extra in [None, Some(x.clone())] {
                out.push(S::of(Sd::Obj {
                    nullable: false,
                    props: props.clone(),
                    extra,
                    required: required.clone(),
                }));
            }
        }
        out.push(S::of(Sd::Str {
            nullable: false,
            format: None,
            example: None,
            variants: Some(names),
        }));
    }
    // chains: each context repeated, and all of them in turn
    let n = contexts(x, false).len();
    for pick in 0..=n {
        let mut y = x.clone();
        for depth in 0..high {
            let c = contexts(&y, false);
            y = c[if pick == n { depth % n } else { pick }].clone();
            out.push(y.clone());
        }
    }
    out
}

fn opt(x: &str) -> Vec<Option<String>> {
    vec![None, s(x)]
}

/// Every kind of schema with every combination of its options over small contents.
pub fn zoo() -> Vec<Sm> {
    let mut out = Vec::new();
    let leafs = vec![
        S::link("A"),
        S::Any,
        S::M(Box::new(Sm {
            desc: s("inner"),
            data: Sd::Str { nullable: true, format: s("if"), example: s("ie"), variants: Some(vec!["iv".into()]) },
        })),
        S::of(Sd::Num { integer: true, nullable: false, format: None, example: None }),
        S::of(Sd::OneOf(vec![S::plain_str(), S::link("B")])),
        S::of(Sd::Obj { nullable: false, props: vec![("x".into(), S::plain_str())], extra: None, required: vec!["x".into()] }),
    ];
    for desc in opt("old") {
        for nullable in [false, true] {
            let mut push = |data| out.push(Sm { desc: desc.clone(), data });
            for format in opt("of") {
                for example in opt("oe") {
                    for variants in [None, Some(vec![]), Some(vec!["o1".to_string(), "o2".to_string()])] {
                        push(Sd::Str { nullable, format: format.clone(), example: example.clone(), variants });
                    }
                    for integer in [false, true] {
                        push(Sd::Num { integer, nullable, format: format.clone(), example: example.clone() });
                    }
                }
            }
            push(Sd::Bool { nullable });
            for l in &leafs {
                push(Sd::Arr { nullable, items: l.clone() });
                push(Sd::Obj { nullable, props: vec![], extra: Some(l.clone()), required: vec![] });
                for required in [vec![], vec!["p".to_string()]] {
                    push(Sd::Obj { nullable, props: vec![("p".into(), l.clone())], extra: None, required });
                }
            }
            push(Sd::Obj { nullable, props: vec![], extra: None, required: vec![] });
            push(Sd::Obj { nullable, props: vec![], extra: Some(S::Any), required: vec!["loose".into()] });
            push(Sd::Obj { nullable, props: vec![("q".into(), null())], extra: None, required: vec!["loose".into(), "q".into()] });
        }
        let mut push = |data| out.push(Sm { desc: desc.clone(), data });
        let mut lists: Vec<Vec<S>> = vec![vec![]];
        for a in &leafs {
            lists.push(vec![a.clone()]);
            for b in &leafs {
                lists.push(vec![a.clone(), b.clone()]);
            }
        }
        for l in lists {
            push(Sd::OneOf(l.clone()));
            push(Sd::AllOf(l.clone()));
            push(Sd::AnyOf(l));
        }
    }
    out
}
