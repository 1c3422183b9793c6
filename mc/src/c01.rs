use crate::lang;
use crate::report::{json_str, shards, Report};
use crate::texts;
use crate::report::at;
use crate::under::{compile, Outcome};

/// What is wrong with parsing `text`, if anything
pub fn judge(text: &str) -> Option<String> {
    let want = lang::parse(text);
    at(|| (text.into(), String::new()));
    #[cfg(not(packetc_surface))]
    if let Some(what) = judge_tree(text, &want) {
        return Some(what);
    }
    crate::order(&[]);
    match (want, compile(text)) {
        (_, Outcome::Panic(_)) => Some("the compiler panics".into()),
        (Some(w), Outcome::Syntax(_)) => Some(format!("does not compile, but it spells {:?}", w)),
        (None, Outcome::Module(_)) | (None, Outcome::Types(_)) => Some("no syntax error is reported, but it is not in the language".into()),
        #[cfg(packetc_surface)]
        (Some(w), got) => {
            // the usual text with this tree has the same result
            let usual = compile(&crate::schema::Schema::of(w).text());
            match (&got, &usual) {
                (Outcome::Types(a), Outcome::Types(b)) if a == b || crate::schema::Schema::parse(text).unwrap().defects().len() > 1 => None,
                _ => {
                    let (a, b) = (crate::norm::result(got), crate::norm::result(usual));
                    if a == b { None } else { Some("the result is not that of the usual text with the same tree".into()) }
                }
            }
        }
        _ => None,
    }
}

#[cfg(not(packetc_surface))]
fn judge_tree(text: &str, want: &Option<crate::ast::AST<'_>>) -> Option<String> {
    let got = match crate::under::inside::parse(text) {
        Ok(got) => got,
        Err(_) => return Some("the parser panics".into()),
    };
    match (want, &got) {
        (Some(w), Some(g)) if w == g => None,
        (None, None) => None,
        (Some(w), None) => Some(format!("rejected, but it spells {:?}", w)),
        (None, Some(g)) => Some(format!("accepted as {:?}, but it is not in the language", g)),
        (Some(w), Some(g)) => Some(format!("parsed as {:?}, but it spells {:?}", g, w)),
    }
}

pub fn run(rep: &Report, thorough: bool) {
    let s = texts::suite();
    rep.add("states", s.access.len() as u64 + 1);
    rep.add("transitions", s.transitions);
    rep.add("characterising suffixes", s.w.len() as u64);
    shards(|shard| {
        let (mut n, mut acc) = (0u64, 0u64);
        texts::each(rep, shard, thorough, false, &mut |text| {
            n += 1;
            if lang::run(text).accepts() {
                acc += 1;
                if n % 100_003 == 0 {
                    rep.sample(json_str(text));
                }
            }
            if let Some(what) = judge(text) {
                rep.violation(what, text, "");
            }
        });
        rep.add("traces", n);
        rep.outcome("accepted", acc);
        rep.outcome("rejected", n - acc);
    });
}
