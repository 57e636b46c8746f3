//! Context parameters against the abstract overlay.
use opg::*;
use rt::*;

#[derive(Clone)]
struct P {
    desc: Option<String>,
    nullable: Option<bool>,
    variants: Option<Vec<String>>,
    format: Option<String>,
    example: Option<String>,
}

impl P {
    fn real(&self) -> ContextParams {
        ContextParams {
            description: self.desc.clone(),
            nullable: self.nullable,
            variants: self.variants.clone(),
            format: self.format.clone(),
            example: self.example.clone(),
        }
    }

    fn text(&self) -> String {
        format!(
            "description={:?} nullable={:?} variants={:?} format={:?} example={:?}",
            self.desc, self.nullable, self.variants, self.format, self.example
        )
    }
}

fn overlay(m: &Sm, p: &P) -> Sm {
    let mut m = m.clone();
    let put = |dst: &mut Option<String>, src: &Option<String>| {
        if src.is_some() {
            *dst = src.clone();
        }
    };
    match &mut m.data {
        Sd::Str { nullable, format, example, variants } => {
            *nullable = p.nullable.unwrap_or(*nullable);
            put(format, &p.format);
            put(example, &p.example);
            if p.variants.is_some() {
                *variants = p.variants.clone();
            }
        }
        Sd::Num { nullable, format, example, .. } => {
            *nullable = p.nullable.unwrap_or(*nullable);
            put(format, &p.format);
            put(example, &p.example);
        }
        Sd::Bool { nullable } | Sd::Arr { nullable, .. } | Sd::Obj { nullable, .. } => {
            *nullable = p.nullable.unwrap_or(*nullable);
        }
        _ => {
            if p.nullable == Some(true) {
                let inner = S::M(Box::new(Sm { desc: None, data: m.data.clone() }));
                m.data = Sd::OneOf(vec![inner, null()]);
            }
        }
    }
    if p.desc.is_some() {
        m.desc = p.desc.clone();
    }
    m
}

thread_local! {
    static CURRENT: std::cell::RefCell<Option<Model>> = std::cell::RefCell::new(None);
    static NAME: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}

/// A model written by hand, relying on the defaults of the trait.
struct Hand;

impl OpgModel for Hand {
    fn get_schema(_: &mut Components) -> Model {
        CURRENT.with(|x| x.borrow().clone().unwrap())
    }

    fn type_name() -> Option<std::borrow::Cow<'static, str>> {
        NAME.with(|x| x.borrow().clone().map(Into::into))
    }
}

fn main() {
    let mut r = Report::new();
    let mut params = Vec::new();
    for desc in [None, s("new"), s("")] {
        for nullable in [None, Some(true), Some(false)] {
            for variants in [None, Some(vec![]), Some(vec!["n".to_string()])] {
                for format in [None, s("nf"), s("")] {
                    for example in [None, s("ne"), s("")] {
                        params.push(P { desc: desc.clone(), nullable, variants: variants.clone(), format: format.clone(), example: example.clone() });
                    }
                }
            }
        }
    }
    let all = zoo();
    for m in &all {
        run(&mut r, m, &params);
    }
    // through the wrappers, which hand the parameters on
    for m in all.iter().step_by(if deep() { 1 } else { 3 }) {
        for p in &params {
            through::<&Hand>(&mut r, m, p, false);
            through::<Box<Hand>>(&mut r, m, p, false);
            through::<std::rc::Rc<Hand>>(&mut r, m, p, false);
            through::<std::sync::Arc<Hand>>(&mut r, m, p, false);
            through::<std::cell::Cell<Hand>>(&mut r, m, p, false);
            through::<std::cell::RefCell<Hand>>(&mut r, m, p, false);
            through::<Option<Hand>>(&mut r, m, p, true);
            through::<Option<Option<Hand>>>(&mut r, m, p, true);
            through::<Box<Option<Hand>>>(&mut r, m, p, true);
            through::<Option<Box<Hand>>>(&mut r, m, p, true);
            through::<&Option<std::rc::Rc<Hand>>>(&mut r, m, p, true);
        }
    }
    // and on the built-in types
    for p in &params {
        let num = |integer, format| Sm { desc: None, data: Sd::Num { integer, nullable: false, format, example: None } };
        let text = |format| Sm { desc: None, data: Sd::Str { nullable: false, format, example: None, variants: None } };
        let arr = |items| Sm { desc: None, data: Sd::Arr { nullable: false, items } };
        let map = |v| Sm { desc: None, data: Sd::Obj { nullable: false, props: vec![], extra: Some(v), required: vec![] } };
        let unsigned = || S::M(Box::new(num(true, s("uint8"))));
        CURRENT.with(|x| *x.borrow_mut() = Some(text(None).to_model()));
        builtin::<u8>(&mut r, num(true, s("uint8")), p);
        builtin::<i64>(&mut r, num(true, s("int64")), p);
        builtin::<f64>(&mut r, num(false, s("double")), p);
        builtin::<bool>(&mut r, Sm { desc: None, data: Sd::Bool { nullable: false } }, p);
        builtin::<String>(&mut r, text(None), p);
        builtin::<str>(&mut r, text(None), p);
        builtin::<Vec<u8>>(&mut r, arr(unsigned()), p);
        builtin::<[u8; 3]>(&mut r, arr(unsigned()), p);
        builtin::<[u8]>(&mut r, arr(unsigned()), p);
        builtin::<std::collections::HashSet<u8>>(&mut r, arr(unsigned()), p);
        builtin::<std::collections::BTreeMap<String, u8>>(&mut r, map(unsigned()), p);
        builtin::<std::collections::HashMap<String, Vec<u8>>>(&mut r, map(S::M(Box::new(arr(unsigned())))), p);
        builtin::<(u8, String)>(&mut r, arr(S::of(Sd::OneOf(vec![unsigned(), S::plain_str()]))), p);
    }
    // every word as every parameter, and as what was there before
    let targets: Vec<Sm> = all.iter().filter(|m| !matches!(m.data, Sd::Arr { .. } | Sd::Obj { .. } | Sd::AllOf(_) | Sd::AnyOf(_)))
        .step_by(3).cloned().collect();
    let none = P { desc: None, nullable: None, variants: None, format: None, example: None };
    let known = words();
    for w in &known {
        let t = || s(w);
        let mut ps = vec![
            P { desc: t(), ..none.clone() },
            P { format: t(), ..none.clone() },
            P { example: t(), ..none.clone() },
            P { variants: Some(vec![w.clone()]), ..none.clone() },
            P { variants: Some(vec!["a".into(), w.clone(), w.clone()]), ..none.clone() },
            P { desc: t(), format: t(), example: t(), variants: Some(vec![w.clone()]), nullable: Some(true) },
        ];
        for m in &targets {
            if matches!(m.data, Sd::OneOf(_)) && m.desc.is_some() {
                continue;
            }
            run(&mut r, m, &ps);
        }
        ps.truncate(3);
        ps.extend([none.clone(), P { nullable: Some(true), ..none.clone() }, P { desc: s("new"), ..none.clone() }]);
        for data in [
            Sd::Str { nullable: false, format: t(), example: t(), variants: Some(vec![w.clone()]) },
            Sd::Num { integer: true, nullable: true, format: t(), example: t() },
            Sd::Obj { nullable: false, props: vec![(w.clone(), S::link(w))], extra: None, required: vec![w.clone()] },
            Sd::OneOf(vec![S::link(w), S::plain_str()]),
        ] {
            run(&mut r, &Sm { desc: t(), data }, &ps);
        }
    }
    // every size
    let mut few = vec![none.clone()];
    for nullable in [None, Some(true), Some(false)] {
        few.push(P { nullable, desc: s("new"), ..none.clone() });
        few.push(P { nullable, desc: None, variants: Some(vec!["n".into()]), format: s("nf"), example: s("ne") });
    }
    for x in [S::link("A"), S::plain_str()] {
        for y in sizes(&x) {
            if let S::M(m) = y {
                run(&mut r, &m, &few);
            }
        }
    }
    for n in 0..70 {
        let many = P { variants: Some((0..n).map(|i| format!("v{}", i % 50)).collect()), ..none.clone() };
        for m in &targets {
            run(&mut r, m, std::slice::from_ref(&many));
        }
    }
    r.extra.insert("bounds".into(), json!({ "schemas": all.len(), "parameter sets": params.len(), "words": known.len() }));
    r.finish();
}

/// A built-in type as it is, and as an option: always in place.
fn builtin<T: OpgModel + ?Sized>(r: &mut Report, m: Sm, p: &P) {
    let optional = P { nullable: p.nullable.or(Some(true)), ..p.clone() };
    let want = overlay(&m, p).json();
    let want_option = overlay(&m, &optional).json();
    let what = std::any::type_name::<T>();
    for inline in [false, true] {
        r.state();
        r.step();
        let mut cx = Components::new();
        let key = format!("{what} + {}, inline={inline}", p.text());
        r.expect(&key, &js(&cx.mention_schema::<T>(inline, &p.real())), &want);
        r.expect(&format!("with params {key}"), &js(&T::get_schema_with_params(&mut cx, &p.real())), &want);
        r.expect(&format!("boxed {key}"), &js(&cx.mention_schema::<Box<T>>(inline, &p.real())), &want);
        r.expect(&format!("optional {key}"), &js(&cx.mention_schema::<Option<&T>>(inline, &p.real())), &want_option);
        r.expect(&format!("components {key}"), &js(&cx.schemas), &json!({}));
    }
}

fn through<T: OpgModel + ?Sized>(r: &mut Report, m: &Sm, p: &P, optional: bool) {
    CURRENT.with(|x| *x.borrow_mut() = Some(m.to_model()));
    let given = P { nullable: if optional { p.nullable.or(Some(true)) } else { p.nullable }, ..p.clone() };
    let place = overlay(m, &given).json();
    let link = S::link("Hand");
    let shared = if given.nullable == Some(true) {
        S::M(Box::new(Sm { desc: p.desc.clone(), data: Sd::OneOf(vec![link, null()]) }))
    } else {
        link
    };
    let what = std::any::type_name::<T>();
    for (named, inline) in [(false, false), (false, true), (true, false), (true, true)] {
        r.state();
        r.step();
        NAME.with(|x| *x.borrow_mut() = if named { s("Hand") } else { None });
        let key = format!("{what} of {} + {}, named={named} inline={inline}", m.json(), p.text());
        let mut cx = Components::new();
        let got = js(&cx.mention_schema::<T>(inline, &p.real()));
        r.outcome(&got);
        if named && !inline {
            r.expect(&key, &got, &shared.json());
            r.expect(&format!("component after {key}"), &js(&cx.schemas), &json!({ "Hand": m.json() }));
        } else {
            r.expect(&key, &got, &place);
            r.expect(&format!("components after {key}"), &js(&cx.schemas), &json!({}));
        }
    }
}

fn run(r: &mut Report, m: &Sm, params: &[P]) {
        r.state();
        let model = m.to_model();
        CURRENT.with(|x| *x.borrow_mut() = Some(model.clone()));
        for p in params {
            r.step();
            let key = format!("{} + {}", m.json(), p.text());
            let want = overlay(m, p);
            let wantj = want.json();
            let got = match guard(|| model.clone().apply_params(&p.real())) {
                Ok(x) => x,
                Err(e) => {
                    r.problem(key.clone(), format!("apply_params panics: {e}"), json!(null));
                    continue;
                }
            };
            let gotj = js(&got);
            r.expect(&key, &gotj, &wantj);
            r.outcome(&gotj);
            if m.is_single() {
                r.expect(&format!("twice {key}"), &js(&got.apply_params(&p.real())), &wantj);
            }
            // the same through the trait, inlined and by name
            NAME.with(|x| *x.borrow_mut() = None);
            let mut cx = Components::new();
            r.expect(&format!("get_schema_with_params {key}"), &js(&Hand::get_schema_with_params(&mut cx, &p.real())), &wantj);
            r.expect(&format!("inline mention {key}"), &js(&cx.mention_schema::<Hand>(true, &p.real())), &wantj);
            r.expect(&format!("unnamed mention {key}"), &js(&cx.mention_schema::<Hand>(false, &p.real())), &wantj);
            if !cx.schemas.is_empty() {
                r.problem(key.clone(), "an inlined model was registered", js(&cx));
            }
            NAME.with(|x| *x.borrow_mut() = s("Hand"));
            let link = S::link("Hand");
            let want = if p.nullable == Some(true) {
                S::M(Box::new(Sm { desc: p.desc.clone(), data: Sd::OneOf(vec![link, null()]) }))
            } else {
                link
            };
            r.expect(&format!("named mention {key}"), &js(&cx.mention_schema::<Hand>(false, &p.real())), &want.json());
            r.expect(&format!("component after {key}"), &js(&cx.schemas), &json!({ "Hand": m.json() }));
            r.expect(&format!("named, inline {key}"), &js(&cx.mention_schema::<Hand>(true, &p.real())), &wantj);
            r.sample(|| json!({ "schema": m.json(), "params": p.text(), "result": gotj }));
        }
}
