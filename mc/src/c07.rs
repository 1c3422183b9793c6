//! C07: the module does not depend on hash order or on the order of declarations.
use crate::choices::permutations;
use crate::norm;
use crate::report::{at, shards, Report, SHARDS};
use crate::schema::{field, Body, Field, Item, Schema};
use crate::under::compile;

fn lists(max: usize, kinds: &[(&str, bool, bool)]) -> Vec<Vec<Field>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<Field>> = vec![vec![]];
    for i in 0..max {
        let mut next = Vec::new();
        for l in &level {
            for (t, a, o) in kinds {
                let mut l: Vec<Field> = l.clone();
                l.push(field(&format!("f{}", i), t, *a, *o));
                next.push(l);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

fn st(name: &str, f: Vec<Field>) -> Item { Item::Decl(name.into(), Body::Struct(f)) }

pub fn compiled(text: &str, order: &[&str]) -> String {
    crate::order(order);
    at(|| (text.into(), format!("{}\n---\n{}", order.join(" "), text)));
    match norm::result(compile(text)) {
        Ok(r) => r,
        Err(e) => format!("panic {}", e),
    }
}

/// Base text (its module in the order of its declarations is the reference) and variant
pub fn judge(base: &str, text: &str, order: &[&str]) -> Option<String> {
    let want = compiled(base, &[]);
    let got = compiled(text, order);
    if want == got {
        None
    } else {
        Some(format!("the module differs: {}", norm::first_difference(&got, &want)))
    }
}

fn explore(rep: &Report, s: &Schema, all: bool, n: &mut u64, texts: &mut u64, steps: &mut u64) {
    let base = s.text();
    let names: Vec<&str> = s.names();
    let want = compiled(&base, &names);
    if !want.starts_with("ok ") {
        rep.outcome("does not compile", 1);
    }
    let (orders, perms) = if all {
        // all orders of the declarations, with the export in front or behind
        let (export, decls) = s.0.split_last().unwrap();
        let mut perms = Vec::new();
        for mut p in permutations(decls) {
            p.insert(0, export.clone());
            perms.push(p.clone());
            p.rotate_left(1);
            perms.push(p);
        }
        (permutations(&names), perms)
    } else {
        // sizes beyond permutation: every rotation, forwards and backwards
        let mut o = Vec::new();
        let mut p = Vec::new();
        for back in 0..2 {
            let many = names.len() > 40;
            for cut in 0..names.len() {
                // where a count can matter
                if many && ![0, 1, names.len() / 3, names.len() - 2, names.len() - 1].contains(&cut) {
                    continue;
                }
                let (mut a, mut b) = (names.clone(), s.0.clone());
                if back == 1 {
                    a.reverse();
                    b.reverse();
                }
                a.rotate_left(cut);
                b.rotate_left(cut);
                o.push(a);
                p.push(b);
            }
        }
        (o, p)
    };
    for p in &perms {
        let text = Schema(p.clone()).text();
        *texts += 1;
        for o in &orders {
            *n += 1;
            *steps += o.len() as u64;
            let got = compiled(&text, o);
            if got != want {
                rep.violation(
                    format!("the module differs: {}", norm::first_difference(&got, &want)),
                    text.as_str(),
                    format!("{}\n---\n{}", o.join(" "), base),
                );
                return;
            }
        }
    }
}

pub fn run(rep: &Report, thorough: bool) {
    let p = |t| (t, false, false);
    let k0 = if thorough {
        vec![p("uint8"), p("E"), p("S1"), p("S2"), ("S2", true, false), ("E", false, true), ("S1", false, true)]
    } else {
        vec![p("uint8"), ("E", false, true), p("S1"), ("S2", true, false)]
    };
    let k1 = [p("uint8"), ("E", true, false), p("S2")];
    let k2 = [p("uint8"), p("E")];
    let mut schemas = Vec::new();
    for f0 in lists(3, &k0) {
        for f1 in lists(2, &k1) {
            for f2 in lists(if thorough { 2 } else { 1 }, &k2) {
                schemas.push(Schema(vec![
                    st("S0", f0.clone()),
                    st("S1", f1.clone()),
                    st("S2", f2.clone()),
                    Item::Decl("E".into(), Body::Enum(vec!["A".into(), "B".into(), "C".into()])),
                    Item::Export("S0".into()),
                ]));
            }
        }
    }
    // many fields, many variants
    for n in (4..=(if thorough { 64 } else { 20 })).chain([32, 33, 64, 100].iter().copied().filter(|n| !thorough || *n > 64)) {
        let types = ["S1", "uint8", "S2", "E", "string", "int16"];
        let f = |r: usize, m: usize| (0..n).map(|i| field(&format!("f{}", (i * 7 + r) % 1009), types[m..][(i + r) % (types.len() - m)], (i + n) % 3 == 1, (i + n) % 3 == 2)).collect();
        schemas.push(Schema(vec![
            st("S0", f(0, 0)),
            st("S1", vec![field("z", "S2", false, false), field("y", "E", true, false), field("x", "S2", true, false)]),
            st("S2", vec![field("q", "E", false, true), field("p", "float", false, false)]),
            Item::Decl("E".into(), Body::Enum((0..n.min(32)).map(|i| format!("V{}", (i * 11) % 997)).collect())),
            Item::Export("S0".into()),
        ]));
        if n <= 10 {
            schemas.push(Schema(vec![
                st("S0", vec![field("b", "S2", false, false), field("a", "S1", false, true)]),
                st("S1", f(2, 3)),
                st("S2", f(1, 3)),
                Item::Decl("E".into(), Body::Enum((0..n).map(|i| format!("V{}", n - i)).collect())),
                Item::Export("S0".into()),
            ]));
        }
    }
    let small = schemas.len();
    rep.add("schemas: 3 structs and an enum, all orders", small as u64);
    // larger schemas, with rotations only
    let top = if thorough { 24 } else { 14 };
    let many = [32, 33, 48, 49, 50, 51, 64, 65, 96, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300];
    for n in (4..=top).chain(many.iter().copied().filter(|n| thorough || *n <= 129 || *n == 257)) {
        for shape in 0..4usize {
            let name = |i: usize| format!("T{}", i);
            let mut items: Vec<Item> = (0..n)
                .map(|i| {
                    let mut f = vec![field("a", "uint8", false, false)];
                    for j in i + 1..n {
                        let take = match shape {
                            0 => j == i + 1,
                            1 => j <= i + 2 && n <= 12 || j == i + 1,
                            2 => i == 0,
                            _ => j == 2 * i + 1 || j == 2 * i + 2,
                        };
                        if take {
                            f.push(field(&format!("g{}", n - j), &name(j), (i + j) % 3 == 1, (i + j) % 3 == 2));
                        }
                    }
                    f.push(field("z", if i % 2 == 0 { "E" } else { "string" }, false, i % 3 == 0));
                    st(&name(i), f)
                })
                .collect();
            items.push(Item::Decl("E".into(), Body::Enum((0..n.min(32)).map(|i| format!("V{}", i)).collect())));
            items.push(Item::Export("T0".into()));
            schemas.push(Schema(items));
        }
    }
    rep.add("schemas: larger, rotations", (schemas.len() - small) as u64);
    // any short list of fields at the end of a chain
    let before = schemas.len();
    let kinds = [p("uint8"), ("uint8", false, true), p("E"), ("E", false, true), ("E", true, false), ("string", true, false), ("L", false, true), ("L", true, false)];
    let bodies = lists(if thorough { 4 } else { 3 }, &kinds);
    for chain in 1..=(if thorough { 9 } else { 6 }) {
        for body in &bodies {
            if body.len() == 4 && chain % 4 != 0 {
                continue;
            }
            // the link to the next one comes before or after another field, or alone
            let mut items: Vec<Item> = (0..chain)
                .map(|i| {
                    let link = field("n", &if i + 1 < chain { format!("T{}", i + 1) } else { "X".into() }, i % 3 == 1, i % 3 == 2);
                    let other = field("m", "E", false, true);
                    st(&format!("T{}", i), match (i + chain) % 3 {
                        0 => vec![link],
                        1 => vec![link, other],
                        _ => vec![other, link],
                    })
                })
                .collect();
            items.push(st("X", body.clone()));
            items.push(st("L", vec![field("b", "uint8", false, true), field("a", "E", false, true)]));
            items.push(Item::Decl("E".into(), Body::Enum(vec!["A".into(), "B".into(), "C".into()])));
            items.push(Item::Export("T0".into()));
            schemas.push(Schema(items));
        }
    }
    rep.add("schemas: chains and their ends, rotations", (schemas.len() - before) as u64);
    // names which sort, fold or compare in unusual ways, in every role
    let before = schemas.len();
    let pool = ["A", "a", "Kind", "KIND", "kind", "x9", "x10", "_c", "Z", "zz", "Kind2", "E_"];
    for code in 0..pool.len().pow(4) {
        let pick: Vec<usize> = (0..4).map(|i| code / pool.len().pow(i) % pool.len()).collect();
        if (0..4).any(|i| (0..i).any(|j| pick[i] == pick[j])) {
            continue;
        }
        let [s0, s1, e0, e1] = [pool[pick[0]], pool[pick[1]], pool[pick[2]], pool[pick[3]]];
        let variants = |n: usize| Body::Enum((0..n).map(|i| format!("V{}", i)).collect());
        schemas.push(Schema(vec![
            st(s0, vec![field(e1, e0, false, false), field(s1, s1, code % 2 == 1, code % 3 == 0 && code % 2 == 0), field("a", e1, true, false)]),
            st(s1, vec![field("A", e1, false, true), field("a", e0, false, false)]),
            Item::Decl(e0.into(), variants([3, 9, 17][code % 3])),
            Item::Decl(e1.into(), variants([9, 32, 8][code % 3])),
            Item::Export(s0.into()),
        ]));
    }
    rep.add("schemas: unusual names, rotations", (schemas.len() - before) as u64);
    shards(|shard| {
        let (mut n, mut texts, mut steps) = (0, 0, 0);
        for (i, s) in schemas.iter().enumerate() {
            if i % SHARDS == shard && !rep.stopped() {
                explore(rep, s, i < small, &mut n, &mut texts, &mut steps);
                if i % 997 == 0 {
                    rep.sample(s.text());
                }
            }
        }
        rep.add("traces", n);
        // a state is a schema with an order of its declarations, a transition is
        // the choice of the next key in an iteration
        rep.add("states", texts);
        rep.add("transitions", steps);
    });
}
