//! verify_schemas against the set of references of the abstract schemas.
use std::collections::BTreeSet;

use opg::Components;
use rt::*;

fn check(r: &mut Report, entries: &[(&str, &Sm)]) {
    r.state();
    r.step();
    let mut cx = Components::new();
    for (name, m) in entries {
        cx.add_model(*name, m.to_model());
    }
    let names: BTreeSet<&str> = entries.iter().map(|(n, _)| *n).collect();
    let mut links = Vec::new();
    entries.iter().for_each(|(_, m)| m.links(&mut links));
    let dangling: BTreeSet<String> = links
        .into_iter()
        .filter(|l| !names.contains(l.as_str()))
        .collect();
    let text = || {
        entries
            .iter()
            .map(|(n, m)| format!("{n}={}", m.json()))
            .collect::<Vec<_>>()
            .join(" ")
    };
    match guard(|| cx.verify_schemas()) {
        Err(p) => r.problem(text(), format!("verification panics ({p}) on {}", text()), json!(null)),
        Ok(Ok(())) => {
            if !dangling.is_empty() {
                r.problem(
                    text(),
                    format!("verification accepts {}, where {:?} is dangling", text(), dangling),
                    json!({ "dangling": dangling }),
                );
            }
        }
        Ok(Err(name)) => {
            if !dangling.contains(&name) {
                r.problem(
                    text(),
                    format!("verification reports {name:?} on {}, dangling are {:?}", text(), dangling),
                    json!({ "dangling": dangling, "reported": name }),
                );
            }
        }
    }
    r.outcome(&json!([dangling.len(), entries.len()]));
    r.sample(|| json!({ "registry": text(), "dangling": dangling }));
}

fn models(xs: &[S]) -> Vec<Sm> {
    xs.iter()
        .filter_map(|x| match x {
            S::M(m) => Some((**m).clone()),
            _ => None,
        })
        .collect()
}

fn main() {
    let mut r = Report::new();
    let leaves = vec![
        S::link("A"),
        S::link("B"),
        S::link("X"),
        S::link("Y"),
        S::link(""),
        S::Any,
        S::plain_str(),
        S::of(Sd::Bool { nullable: false }),
    ];
    let mut levels: Vec<Vec<S>> = vec![leaves.clone()];
    let depth = if deep() { 5 } else { 4 };
    for d in 1..=depth {
        let prev = levels[d - 1].clone();
        let mut next = Vec::new();
        for x in &prev {
            next.extend(contexts(x, d <= 2));
            if d <= 2 {
                for y in &leaves {
                    next.extend(contexts2(x, y));
                    if d == 1 {
                        continue;
                    }
                    next.extend(contexts2(y, x));
                }
            }
        }
        if d == 2 && !deep() {
            // deeper levels continue from the unary shapes
            let unary: Vec<S> = prev.iter().flat_map(|x| contexts(x, false)).collect();
            for m in models(&next) {
                check(&mut r, &[("A", &m)]);
            }
            levels.push(unary.into_iter().step_by(1).collect());
            continue;
        }
        for m in models(&next) {
            check(&mut r, &[("A", &m)]);
        }
        if d >= 2 {
            // keep the frontier to one second-level shape per leaf kind and context
            next = prev.iter().take(6 * leaves.len() * if deep() { 60 } else { 12 }).flat_map(|x| contexts(x, false)).collect();
        }
        levels.push(next);
    }
    // two and three entries: who refers to whom
    check(&mut r, &[]);
    let one = models(&leaves.iter().flat_map(|x| contexts(x, false)).collect::<Vec<_>>());
    let two = models(
        &leaves
            .iter()
            .flat_map(|x| contexts(x, false))
            .flat_map(|x| contexts(&x, false))
            .collect::<Vec<_>>(),
    );
    for a in two.iter() {
        for b in one.iter() {
            check(&mut r, &[("A", a), ("B", b)]);
            check(&mut r, &[("A", b), ("B", a)]);
        }
    }
    for names in [["A", "B", "X"], ["A", "X", "Y"], ["B", "X", ""]] {
        for a in one.iter() {
            for b in one.iter() {
                for c in one.iter().take(if deep() { one.len() } else { 12 }) {
                    check(&mut r, &[(names[0], a), (names[1], b), (names[2], c)]);
                }
            }
        }
    }
    // every kind of schema, alone and with every other
    let all_models = zoo();
    for a in &all_models {
        check(&mut r, &[("A", a)]);
        check(&mut r, &[("B", a)]);
        check(&mut r, &[("C", a)]);
        for b in all_models.iter().step_by(if deep() { 1 } else { 3 }) {
            check(&mut r, &[("A", a), ("B", b)]);
            check(&mut r, &[("A", a), ("Z", b)]);
        }
    }
    // names of every form: registered means equal, nothing looser
    let known = words();
    for w in &known {
        let m = Sm {
            desc: None,
            data: Sd::Arr {
                nullable: false,
                items: S::link(w),
            },
        };
        for v in known.iter().take(if deep() { known.len() } else { 760 }) {
            check(&mut r, &[(v.as_str(), &m)]);
        }
        let Sm { data, .. } = &m;
        let wrapped = Sm {
            desc: Some(w.clone()),
            data: Sd::Obj {
                nullable: true,
                props: vec![(w.clone(), S::of(data.clone()))],
                extra: None,
                required: vec![w.clone()],
            },
        };
        check(&mut r, &[("A", &wrapped)]);
        check(&mut r, &[("A", &wrapped), (w.as_str(), &one[0])]);
    }
    // every size and depth, the reference at every position of a list
    for x in [S::link("A"), S::link("X"), S::Any] {
        for m in models(&sizes(&x)) {
            check(&mut r, &[("A", &m)]);
            let names: Vec<String> = (0..300).map(|i| format!("L{i}")).collect();
            let any = &one[one.len() - 1];
            let mut all: Vec<(&str, &Sm)> = names.iter().map(|n| (n.as_str(), any)).collect();
            all.push(("A", &m));
            check(&mut r, &all);
        }
    }
    let wide = if deep() { 60 } else { 40 };
    for n in 1..wide {
        for at in 0..n {
            let list: Vec<S> = (0..n).map(|i| if i == at { S::link("X") } else { S::link("A") }).collect();
            let props: Vec<(String, S)> = list.iter().cloned().enumerate().map(|(i, x)| (format!("p{i}"), x)).collect();
            for data in [
                Sd::OneOf(list.clone()),
                Sd::AllOf(list.clone()),
                Sd::AnyOf(list.clone()),
                Sd::Obj {
                    nullable: false,
                    props,
                    extra: Some(S::Any),
                    required: vec![],
                },
            ] {
                let m = Sm { desc: None, data };
                check(&mut r, &[("A", &m)]);
                check(&mut r, &[("A", &m), ("X", &m)]);
            }
            // many entries, one of which refers to nothing
            let names: Vec<String> = (0..n).map(|i| format!("E{i}")).collect();
            let good = Sm {
                desc: None,
                data: Sd::Arr {
                    nullable: false,
                    items: S::link("E0"),
                },
            };
            let bad = Sm {
                desc: None,
                data: Sd::Arr {
                    nullable: false,
                    items: S::link(&format!("E{n}")),
                },
            };
            let all: Vec<(&str, &Sm)> = names.iter().enumerate().map(|(i, x)| (x.as_str(), if i == at { &bad } else { &good })).collect();
            check(&mut r, &all);
        }
    }
    r.extra.insert("bounds".into(), json!({ "nesting": depth, "entries": 3, "reference names": ["A", "B", "X", "Y", ""] }));
    r.finish();
}
