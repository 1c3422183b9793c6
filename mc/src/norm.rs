//! A generated module without what may legitimately vary: the timestamp and
//! the order of the declarations in the namespace.
use crate::under::Outcome;

pub fn module(text: &str) -> String {
    let lines: Vec<&str> = text.lines().collect();
    let body = if lines.first().map_or(false, |l| l.starts_with("// Generated by")) { &lines[1..] } else { &lines[..] };
    let class = body.iter().position(|l| l.starts_with("export class ")).unwrap_or(0);
    let mut head = Vec::new();
    let mut blocks: Vec<String> = Vec::new();
    for l in &body[..class] {
        if l.starts_with("    export ") {
            blocks.push(String::new());
        } else if blocks.is_empty() || !l.starts_with("    ") {
            head.push(*l);
            continue;
        }
        let b = blocks.last_mut().unwrap();
        b.push_str(l);
        b.push('\n');
    }
    blocks.sort();
    let mut out = head.join("\n");
    out.push('\n');
    out.push_str(&blocks.concat());
    out.push_str(&body[class..].join("\n"));
    out
}

/// Result of a compilation, comparable between runs
pub fn result(r: Outcome) -> Result<String, String> {
    match r {
        Outcome::Module(m) => Ok(format!("ok {}", module(&m))),
        Outcome::Syntax(e) => Ok(format!("syntax error {}", e)),
        Outcome::Types(e) => Ok(format!("type error {}", e)),
        Outcome::Panic(e) => Err(e),
    }
}

pub fn first_difference(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{:?} instead of {:?}", x, y);
        }
    }
    format!("{} lines instead of {}", a.lines().count(), b.lines().count())
}
