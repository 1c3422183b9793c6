use crate::lang;
use crate::report::{json_str, shards, Report};
use crate::texts;
use crate::under::{compile, Outcome};
use crate::report::{at};

fn is_word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }

/// The places at which a diagnostic may point: the first token at which the
/// text stops being the beginning of a schema. If that token is a word or the
/// two characters of `[]`, its start is as good as the offending character.
fn places(text: &str) -> Vec<usize> {
    let stop = lang::viable(text);
    let mut out = vec![stop];
    let before = &text[..stop];
    let start = stop - before.chars().rev().take_while(|c| is_word(*c)).count();
    if start != stop {
        out.push(start);
    }
    if before.ends_with('[') {
        out.push(stop - 1);
    }
    out
}

fn diagnostic(text: &str, msg: &str) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{}; the message is {}", what, json_str(msg)));
    let lines: Vec<&str> = text.split('\n').collect();
    let rest = match msg.trim_start().strip_prefix("Unexpected token '") {
        Some(r) => r,
        None => return bad("the message does not name a token"),
    };
    let token = rest.chars().next().unwrap();
    let rest = &rest[token.len_utf8()..];
    let rest = match rest.strip_prefix("' at line ") {
        Some(r) => r,
        None => return bad("the message does not name one token and a line"),
    };
    let comma = rest.find(", column ").unwrap_or(0);
    let line: usize = match rest[..comma].parse() {
        Ok(n) => n,
        Err(_) => return bad("the message has no line"),
    };
    let rest = &rest[comma + ", column ".len()..];
    let end = rest.find('\n').unwrap_or(rest.len());
    let column: usize = match rest[..end].parse() {
        Ok(n) => n,
        Err(_) => return bad("the message has no column"),
    };
    if line < 1 || line > lines.len() || column < 1 {
        return bad("there is no such line");
    }
    let src = lines[line - 1];
    if column > src.chars().count() + 1 {
        return bad("there is no such column");
    }
    // the place
    let offset = lines[..line - 1].iter().map(|l| l.len() + 1).sum::<usize>()
        + src.chars().take(column - 1).map(|c| c.len_utf8()).sum::<usize>();
    if token != text[offset..].chars().next().unwrap_or('\0') {
        return bad("the token is not the one at that line and column");
    }
    if !places(text).contains(&offset) {
        return bad(&format!("it points at byte {}, but it should be one of {:?}", offset, places(text)));
    }
    // the echoed line and the caret
    let out: Vec<&str> = rest[end..].split('\n').collect();
    let echoed = out.iter().position(|l| l.strip_prefix("|  ").map_or(false, |l| l == src));
    let echoed = match echoed {
        Some(i) => i,
        None => return bad("the line is not echoed"),
    };
    let caret = out.get(echoed + 1).and_then(|l| l.chars().position(|c| c == '^'));
    if caret != Some("|  ".len() + column - 1) {
        return bad("the caret is not below the token");
    }
    Ok(())
}

pub fn judge(text: &str) -> Option<String> {
    let in_language = lang::run(text).accepts();
    at(|| (text.into(), String::new()));
    match compile(text) {
        Outcome::Panic(_) => Some("the compiler panics".into()),
        Outcome::Syntax(_) if in_language => Some("a syntax error is reported for a text of the language".into()),
        Outcome::Syntax(msg) => diagnostic(text, &msg).err(),
        _ if !in_language => Some("no syntax error is reported".into()),
        Outcome::Types(msg) if msg.trim().is_empty() => Some("the error message is empty".into()),
        Outcome::Module(out) if out.trim().is_empty() => Some("the module is empty".into()),
        _ => None,
    }
}

pub fn run(rep: &Report, thorough: bool) {
    let s = texts::suite();
    rep.add("states", s.access.len() as u64 + 1);
    rep.add("transitions", s.transitions);
    // what may come before the place of the error
    let pads = ["", "# é😀\n", "\n\n", "#\u{a0}\r\n \t\n", "E: enum { A }\r\n"];
    shards(|shard| {
        let (mut n, mut acc) = (0u64, 0u64);
        let mut buf = String::new();
        texts::each(rep, shard, thorough, !thorough, &mut |text| {
            for (i, pad) in pads.iter().enumerate() {
                if i > 1 && n % 5 != i as u64 {
                    continue;
                }
                buf.clear();
                buf.push_str(pad);
                buf.push_str(text);
                n += 1;
                acc += lang::run(&buf).accepts() as u64;
                if let Some(what) = judge(&buf) {
                    rep.violation(what, buf.as_str(), "");
                } else if n % 500_009 == 0 {
                    rep.sample(json_str(&buf));
                }
            }
        });
        rep.add("traces", n);
        rep.outcome("module or type error", acc);
        rep.outcome("syntax error", n - acc);
    });
}
