//! C04, C05 and C06: type checking against the reference semantics.
use crate::choices::permutations;
use crate::cspace;
use crate::report::{at, shards, Report};
use crate::schema::Schema;
use crate::under::{compile, Outcome};
use std::collections::BTreeSet;

#[cfg(not(packetc_surface))]
pub fn judge(prop: &str, s: &Schema, order: &[&str], defects: &BTreeSet<String>) -> Option<String> {
    use crate::under::inside;
    crate::order(order);
    at(|| (s.text(), order.join(" ")));
    let got = match inside::type_check(inside::tree(s)) {
        Ok(got) => got,
        // a crash neither accepts nor reports a defect
        Err(e) if prop != "C06" || defects.is_empty() => return Some(format!("type checking panics: {}", e)),
        Err(_) => return None,
    };
    match (prop, got) {
        ("C04", Ok(_)) if !defects.is_empty() => Some(format!("accepted in spite of: {:?}", defects)),
        ("C04", Err(e)) if defects.is_empty() => Some(format!("rejected a well-formed schema: {}", e)),
        ("C05", Err(e)) if !defects.contains(&e) => {
            Some(format!("reports '{}', but the defects are {:?}", e, defects))
        }
        ("C06", Ok(r)) if defects.is_empty() => s.compare(&r).err(),
        _ => None,
    }
}

#[cfg(packetc_surface)]
pub fn judge(prop: &str, s: &Schema, order: &[&str], defects: &BTreeSet<String>) -> Option<String> { judge_compile(prop, s, order, defects) }

/// The same through the whole compiler
fn judge_compile(prop: &str, s: &Schema, order: &[&str], defects: &BTreeSet<String>) -> Option<String> {
    // the module of a schema is as long as its types are wide when written out
    // in full, so large ones are left to `judge`
    if defects.is_empty() && s.0.len() > 8 {
        return None;
    }
    crate::order(order);
    let text = s.text();
    at(|| (text.clone(), order.join(" ")));
    match (prop, compile(&text)) {
        ("C04", Outcome::Module(_)) if !defects.is_empty() => Some(format!("compiles in spite of: {:?}", defects)),
        ("C04", Outcome::Syntax(e)) | ("C04", Outcome::Types(e)) if defects.is_empty() => Some(format!("a well-formed schema does not compile: {}", e)),
        ("C04", Outcome::Panic(e)) => Some(format!("the compiler panics: {}", e)),
        ("C05", Outcome::Types(e)) if !defects.contains(&e) => {
            Some(format!("the compiler reports '{}', but the defects are {:?}", e, defects))
        }
        _ => None,
    }
}

pub fn judge_both(prop: &str, s: &Schema, order: &[&str], defects: &BTreeSet<String>) -> Option<String> {
    judge(prop, s, order, defects).or_else(|| if prop == "C06" { None } else { judge_compile(prop, s, &[], defects) })
}

pub fn run(rep: &Report, prop: &str, thorough: bool) {
    shards(|shard| {
        let (mut n, mut good, mut schemas, mut steps) = (0u64, 0u64, 0u64, 0u64);
        let mut kinds: std::collections::BTreeMap<String, u64> = Default::default();
        cspace::each(rep, shard, thorough, prop, &mut |s| {
            let defects = s.defects();
            // each property looks at its own half of the space
            if prop == "C05" && defects.is_empty() || prop == "C06" && !defects.is_empty() {
                return;
            }
            schemas += 1;
            good += defects.is_empty() as u64;
            steps += s.0.len() as u64;
            let kind = match defects.iter().next() {
                None => "well-formed".to_string(),
                Some(_) if defects.len() > 1 => "several defects".to_string(),
                Some(d) => d.split('\'').next().unwrap().split(':').next().unwrap().trim().to_string(),
            };
            *kinds.entry(kind).or_default() += 1;
            let mut names = s.names();
            names.sort_unstable();
            names.dedup();
            let orders: Vec<Vec<&str>> = if names.len() <= 5 {
                permutations(&names)
            } else {
                let mut o = vec![names.clone()];
                names.reverse();
                o.push(names.clone());
                for cut in [1, names.len() / 2, names.len() - 1].iter() {
                    let mut r = names.clone();
                    r.rotate_left(*cut);
                    o.push(r);
                }
                o
            };
            for (i, order) in orders.iter().enumerate() {
                n += 1;
                let judge = if i == 0 { judge_both } else { judge };
                if let Some(what) = judge(prop, s, order, &defects) {
                    rep.violation(what, s.text(), order.join(" "));
                    break;
                }
            }
            if schemas % 20011 == 0 {
                rep.sample(s.text());
            }
        });
        rep.add("traces", n);
        rep.add("states", schemas);
        rep.add("transitions", steps);
        for (k, v) in kinds {
            rep.outcome(&k, v);
        }
    });
}
