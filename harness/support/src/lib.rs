//! Reporting side of the generated programs: one line per event on stdout.
//!   B <id>          the case starts
//!   R <id> <json>   the case finished with these observations
//!   P <id> <text>   the case panicked
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use serde_json;
pub use serde_json::{json, Map, Value};

use opg::{Components, Model, ModelReference, OpgModel};

pub type Obs = Map<String, Value>;

fn line(text: &str) {
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = out.write_all(text.as_bytes());
    let _ = out.write_all(b"\n");
    let _ = out.flush();
}

pub fn case(id: u32, f: fn(&mut Obs)) {
    line(&format!("B {}", id));
    let mut obs = Map::new();
    match catch_unwind(AssertUnwindSafe(|| f(&mut obs))) {
        Ok(()) => line(&format!("R {} {}", id, Value::Object(obs))),
        Err(e) => {
            let text = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            line(&format!("P {} {}", id, text.replace('\n', " ")));
        }
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn js<T: serde::Serialize + ?Sized>(v: &T) -> Value {
    serde_json::to_value(v).expect("observation is serializable")
}

/// Everything that is observable about one type.
pub fn observe<T: OpgModel + ?Sized>(o: &mut Obs) {
    let mut cx = Components::new();
    let reference: ModelReference = cx.mention_schema::<T>(false, &Default::default());
    o.insert("ref".into(), js(&reference));
    o.insert("components".into(), js(&cx.schemas));
    o.insert(
        "verify".into(),
        match cx.verify_schemas() {
            Ok(()) => Value::Null,
            Err(e) => Value::String(e),
        },
    );
    let mut own = Components::new();
    let schema: Model = T::get_schema(&mut own);
    o.insert("schema".into(), js(&schema));
    o.insert("own_components".into(), js(&own.schemas));
    o.insert(
        "type_name".into(),
        match T::type_name() {
            Some(n) => Value::String(n.into_owned()),
            None => Value::Null,
        },
    );
}

/// Mentions of the type under every choice of parameters, each into a new registry.
pub fn mentions<T: OpgModel + ?Sized>(o: &mut Obs) {
    let mut all = Vec::new();
    for inline in [false, true] {
        for nullable in [None, Some(true), Some(false)] {
            for text in [false, true] {
                let params = opg::ContextParams {
                    description: text.then(|| "dd".to_string()),
                    nullable,
                    variants: None,
                    format: text.then(|| "ff".to_string()),
                    example: text.then(|| "ee".to_string()),
                };
                let mut cx = Components::new();
                let reference = cx.mention_schema::<T>(inline, &params);
                all.push(serde_json::json!({"ref": js(&reference), "components": js(&cx.schemas)}));
            }
        }
    }
    o.insert("mentions".into(), Value::Array(all));
}

/// Mentions of several types into one registry, in order.
pub fn put<T: serde::Serialize + ?Sized>(o: &mut Obs, key: &str, v: &T) {
    o.insert(key.into(), js(v));
}

pub fn value<T: serde::Serialize + ?Sized>(o: &mut Obs, v: &T) {
    let list = o
        .entry("values")
        .or_insert_with(|| Value::Array(Vec::new()))
        .as_array_mut()
        .unwrap();
    match serde_json::to_value(v) {
        Ok(v) => list.push(json!({ "ok": v })),
        Err(e) => list.push(json!({ "err": e.to_string() })),
    }
}

thread_local! {
    static SKIP: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// Answer of `skip_serializing_if = "skip_toggle"`: enumerated by the driver.
pub fn set_skip(skip: bool) {
    SKIP.with(|x| x.set(skip));
}

pub fn skip_toggle<T: ?Sized>(_: &T) -> bool {
    SKIP.with(|x| x.get())
}

pub fn skip_never<T: ?Sized>(_: &T) -> bool {
    false
}

pub fn skip_always<T: ?Sized>(_: &T) -> bool {
    true
}

pub fn leak<T>(v: T) -> &'static mut T {
    Box::leak(Box::new(v))
}

/// A type which has no schema: naming it in one does not compile.
pub struct NoModel;

impl serde::Serialize for NoModel {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str("NO-MODEL")
    }
}

/// One mention with explicit arguments into a fresh registry.
pub fn mention<T: OpgModel + ?Sized>(o: &mut Obs, key: &str, inline: bool, params: opg::ContextParams) {
    let mut cx = Components::new();
    let reference = cx.mention_schema::<T>(inline, &params);
    o.insert(key.into(), json!({ "ref": js(&reference), "components": js(&cx.schemas) }));
}

/// An operation on the registry and what it returns.
pub type Op = (&'static str, fn(&mut Components) -> Value);

/// All `$ref` targets of a document.
pub fn refs(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(map) => {
            for (k, v) in map {
                match v {
                    Value::String(s) if k == "$ref" => out.push(s.clone()),
                    v => refs(v, out),
                }
            }
        }
        Value::Array(items) => items.iter().for_each(|v| refs(v, out)),
        _ => {}
    }
}

type Registry = std::collections::BTreeMap<String, String>;

fn snapshot(cx: &Components) -> Registry {
    cx.schemas
        .iter()
        .map(|(k, v)| (k.clone(), js(v).to_string()))
        .collect()
}

/// Explores every registry reachable by any history of the operations (no depth
/// bound: a state is the whole registry), checking each transition.
pub fn explore_mentions(o: &mut Obs, ops: &[Op]) {
    use std::collections::{HashMap, VecDeque};
    let mut problems: Vec<String> = Vec::new();
    // each operation on an empty registry
    let mut base: Vec<(Value, Registry)> = Vec::new();
    let mut form: Registry = Registry::new();
    let mut reported = Map::new();
    for (name, run) in ops {
        let mut cx = Components::new();
        let value = run(&mut cx);
        let reg = snapshot(&cx);
        reported.insert(
            name.to_string(),
            json!({ "ref": value.clone(), "components": js(&cx.schemas) }),
        );
        for (k, v) in &reg {
            match form.get(k) {
                Some(old) if old != v => {
                    problems.push(format!("{name}: component {k} is {v}, registered as {old} elsewhere"))
                }
                Some(_) => {}
                None => {
                    form.insert(k.clone(), v.clone());
                }
            }
        }
        base.push((value, reg));
    }
    let mut seen: HashMap<Vec<String>, Vec<u16>> = HashMap::new();
    let mut queue: VecDeque<(Components, Registry, Vec<u16>)> = VecDeque::new();
    seen.insert(Vec::new(), Vec::new());
    queue.push_back((Components::new(), Registry::new(), Vec::new()));
    let mut transitions = 0u64;
    let mut depth = 0usize;
    while let Some((state, reg, path)) = queue.pop_front() {
        for (i, (name, run)) in ops.iter().enumerate() {
            transitions += 1;
            let mut cx = state.clone();
            let value = run(&mut cx);
            let after = snapshot(&cx);
            let mut trace = path.clone();
            trace.push(i as u16);
            let what = || {
                trace
                    .iter()
                    .map(|i| ops[*i as usize].0)
                    .collect::<Vec<_>>()
                    .join(" ; ")
            };
            if problems.len() < 20 {
                if value != base[i].0 {
                    problems.push(format!("[{}] returned {}, alone it returns {}", what(), value, base[i].0));
                }
                let mut expected = reg.clone();
                for (k, v) in &base[i].1 {
                    expected.entry(k.clone()).or_insert_with(|| v.clone());
                }
                if after != expected {
                    let diff: Vec<_> = expected
                        .keys()
                        .chain(after.keys())
                        .filter(|k| expected.get(*k) != after.get(*k))
                        .collect();
                    problems.push(format!("[{}] registry differs at {:?} after {}", what(), diff, name));
                }
                let mut links = Vec::new();
                refs(&value, &mut links);
                refs(&js(&cx.schemas), &mut links);
                for l in links {
                    let known = l
                        .strip_prefix("#/components/schemas/")
                        .map_or(false, |n| cx.schemas.contains_key(n));
                    if !known {
                        problems.push(format!("[{}] dangling reference {}", what(), l));
                        break;
                    }
                }
                if let Err(e) = cx.verify_schemas() {
                    problems.push(format!("[{}] verification fails: {}", what(), e));
                }
            }
            let key: Vec<String> = after.keys().cloned().collect();
            if !seen.contains_key(&key) {
                depth = depth.max(trace.len());
                seen.insert(key, trace.clone());
                queue.push_back((cx, after, trace));
            }
        }
        if problems.len() >= 20 {
            break;
        }
    }
    o.insert("alone".into(), Value::Object(reported));
    o.insert("problems".into(), json!(problems));
    o.insert("states".into(), json!(seen.len()));
    o.insert("transitions".into(), json!(transitions));
    o.insert("depth".into(), json!(depth));
}

/// The texts of everything observable about one type, described again and again.
pub fn texts<T: OpgModel + ?Sized>(o: &mut Obs) {
    let mut all: Vec<Vec<String>> = (0..3)
        .map(|_| {
            let mut cx = Components::new();
            let reference = cx.mention_schema::<T>(false, &Default::default());
            // describing again into the same registry changes nothing
            let again = cx.mention_schema::<T>(false, &Default::default());
            let mut own = Components::new();
            let schema = T::get_schema(&mut own);
            vec![
                serde_json::to_string(&reference).unwrap(),
                serde_json::to_string(&again).unwrap(),
                serde_json::to_string(&cx).unwrap(),
                serde_json::to_string(&schema).unwrap(),
                serde_json::to_string(&own).unwrap(),
                serde_json::to_string(&cx.clone()).unwrap(),
                serde_json::to_string_pretty(&schema.clone()).unwrap(),
            ]
        })
        .collect();
    let stable = all.iter().all(|x| *x == all[0]);
    let first = all.swap_remove(0);
    o.insert("stable".into(), json!(stable && first[0] == first[1] && first[2] == first[5]));
    o.insert("texts".into(), json!([first[0], first[2], first[3], first[4]]));
}

/// The text of a document, built again and again.
pub fn doc_texts(o: &mut Obs, f: fn() -> opg::Opg) {
    let all: Vec<String> = (0..3).map(|_| serde_json::to_string(&f()).unwrap()).collect();
    let doc = f();
    o.insert("stable".into(), json!(all.iter().all(|x| *x == all[0]) && serde_json::to_string(&doc.clone()).unwrap() == all[0]));
    o.insert("texts".into(), json!([all[0]]));
}

/// The value of a future that never waits.
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(x) => x,
        std::task::Poll::Pending => panic!("the future waits"),
    }
}
