//! C16: every history of compilations in one process.
use crate::norm;
use crate::report::{at, Report};
use crate::under::compile;

pub const SCHEMAS: [&str; 22] = [
    "T: struct { a: uint8 }\nexport T",
    "T: struct { a: string, b?: float }\nexport T",
    "T: struct { a: uint8, a: uint8 }\nexport T",
    "E: enum { A, B }\nT: struct { e: E, f: E[], g?: E }\nexport T",
    "E: enum { A, B, C, D, F, G, H, I, J }\nT: struct { e: E[] }\nexport T",
    "P: struct { x: float, y: float }\nQ: struct { p: P[], q?: P }\nT: struct { q: Q, r: Q[] }\nexport T",
    "A: struct { b: B }\nB: struct { a: A }\nexport A",
    "A: struct { b: B }\nB: struct { c: uint8 }\nexport A",
    "A: struct { b: X }\nexport A",
    "A: struct { b: uint8 ]\nexport A",
    "A: enum { }\nexport A",
    "",
    "export T",
    "# \u{e9}\nT: struct { a_b: uint8[], a: string[] }\nU: struct { }\nexport U",
    "T: struct { a: P, a_x: string[] }\nP: struct { x: string[] }\nexport T",
    "E: enum { A, A }\nT: struct { }\nexport T",
    // same characters in another order
    "T: struct { ab: uint8, c: int8 }\nexport T",
    "T: struct { a: uint8, bc: int8 }\nexport T",
    // same names, other types
    "E: enum { B, A }\nT: struct { e: E, f: E[], g?: E }\nexport T",
    "P: struct { y: float, x: int8 }\nQ: struct { p: P[], q?: P }\nT: struct { q: Q, r: Q[] }\nexport T",
    "E: struct { A: float }\nT: struct { e: E, f: E[], g?: E }\nexport T",
    "T: enum { a, b }\nU: struct { t: T }\nexport U",
];

/// A family of small schemas of which many are alike: same length, same
/// characters, same beginning, same names
fn family() -> Vec<String> {
    let mut fields = Vec::new();
    for name in ["a", "b", "ab"] {
        for ty in ["int8", "uint8", "int16", "E", "S"] {
            for (opt, arr) in [("", ""), ("?", ""), ("", "[]")] {
                fields.push(format!("{}{}: {}{}", name, opt, ty, arr));
            }
        }
    }
    let mut out = Vec::new();
    for e in ["E: enum { A, B }", "E: enum { B, A }"] {
        for s in ["S: struct { b: int8 }", "S: struct { a: uint8 }"] {
            for (i, f) in fields.iter().enumerate() {
                let g = &fields[(i * 7 + 3) % fields.len()];
                out.push(format!("{}\n{}\nT: struct {{ {} }}\nexport T\n", e, s, f));
                out.push(format!("{}\n{}\nT: struct {{ {}, {} }}\nexport T\n", e, s, f, g));
                out.push(format!("{}\n{}\nT: struct {{ {}, {} }}\nexport T\n", e, s, g, f));
            }
        }
    }
    out
}

/// Schemas which are long, deep or wide in some way, and have not much in common
fn big() -> Vec<String> {
    let mut out = Vec::new();
    let long = |n: usize| "abcdefghij".repeat(n / 10 + 1)[..n].to_string();
    for n in [10, 16, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300, 1000] {
        // long names of everything
        let x = long(n);
        out.push(format!("{x}: struct {{ {x}: uint8, {x}_: string[], _{x}?: {x}E[] }}\n{x}E: enum {{ {x}, {x}2 }}\nexport {x}\n").replace("?: ", ": "));
        out.push(format!("{x}P: struct {{ {x}: uint8[], y?: string }}\nT: struct {{ {x}: {x}P[], z?: {x}P }}\nexport T\n"));
        // wide
        let f: Vec<String> = (0..n).map(|i| format!("f{}{}: {}", i, ["", "?"][(i % 7 == 3) as usize], ["uint8", "string", "E", "P", "float"][i % 5])).collect();
        let v: Vec<String> = (0..n.min(32)).map(|i| format!("V{}", i)).collect();
        out.push(format!("E: enum {{ {} }}\nP: struct {{ q: E[] }}\nT: struct {{ {} }}\nexport T\n", v.join(", "), f.join(", ")));
        // many declarations
        out.push((0..n).map(|i| format!("T{}: struct {{ a: uint8 }}\n", i)).collect::<String>() + "export T0\n");
    }
    // deep, with names of different lengths
    for depth in 1..=12 {
        for name in ["a", "abc", "a_b", "abcdefgh"] {
            for kind in 0..3 {
                let mut s = String::new();
                for i in 0..depth {
                    let (o, a) = [("", ""), ("?", ""), ("", "[]")][(i % 3 + kind) % 3];
                    s += &format!("T{}: struct {{ {}{}: T{}{}, z: uint8[] }}\n", i, name, o, i + 1, a);
                }
                out.push(format!("{}T{}: struct {{ x: string[], y: string, {}?: E }}\nE: enum {{ A, B, C }}\nexport T0\n", s, depth, name));
            }
        }
    }
    out
}

/// Schemas of the same length, which differ only in the middle or at an end
fn alike() -> Vec<String> {
    let mut out = Vec::new();
    for n in [0usize, 1, 2, 4, 8, 16, 30, 60, 120, 250, 1000] {
        let pad: String = (0..n).map(|i| format!("F{}: struct {{ a{}: uint8, b: F_[] }}\n", i, i)).collect();
        let rest = "F_: struct { x: float }\nexport T\n";
        let one = |k: &str| format!("T: struct {{ {} }}\n", k);
        for (i, k) in ["a: uint16", "b: uint16", "a: uint32", "a: string", "aa:string", "a?: float", "a:float[]", "a: F_[] ", "ab: int16", "a: F_   ", "a: X_   "].iter().enumerate() {
            // fewer of the long ones
            if n > 200 && i % 4 != 0 {
                continue;
            }
            out.push(format!("{}{}{}", one(k), pad, rest));
            if n > 0 {
                out.push(format!("{}{}{}", pad, one(k), rest));
                out.push(format!("{}{}{}", pad, rest, one(k)));
            }
        }
    }
    out
}

static FAMILY: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
static BIG: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
static ALIKE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

fn text(i: usize) -> &'static str {
    if i < SCHEMAS.len() {
        SCHEMAS[i]
    } else if i - SCHEMAS.len() < FAMILY.get_or_init(family).len() {
        &FAMILY.get_or_init(family)[i - SCHEMAS.len()]
    } else {
        let i = i - SCHEMAS.len() - FAMILY.get_or_init(family).len();
        BIG.get_or_init(big).get(i).unwrap_or_else(|| &ALIKE.get_or_init(alike)[i - BIG.get_or_init(big).len()])
    }
}

fn baselines(all: &[usize]) -> Vec<String> {
    std::thread::scope(|s| {
        let parts: Vec<_> = all.chunks(all.len() / 8 + 1).map(|c| s.spawn(move || c.iter().map(|i| baseline(*i)).collect::<Vec<_>>())).collect();
        parts.into_iter().flat_map(|p| p.join().unwrap()).collect()
    })
}

pub fn one(i: usize) -> String {
    crate::order(&[]);
    at(|| (i.to_string(), String::new()));
    match norm::result(compile(text(i))) {
        Ok(r) => r,
        Err(e) => format!("panic {}", e),
    }
}

/// Compiles the schemas of a history in one thread; the result of the last one
pub fn history(h: &[usize]) -> Vec<String> { h.iter().map(|i| one(*i)).collect() }

pub fn baseline(i: usize) -> String {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(&["one", &i.to_string()]).output().unwrap();
    assert!(out.status.success());
    String::from_utf8(out.stdout).unwrap()
}

pub fn judge(h: &[usize]) -> Option<String> {
    for (i, got) in h.iter().zip(history(h)) {
        let want = baseline(*i);
        if got != want {
            return Some(format!("schema {} gives another result: {}", i, norm::first_difference(&got, &want)));
        }
    }
    None
}

pub fn run(rep: &Report, thorough: bool) {
    let n = SCHEMAS.len();
    let base: Vec<String> = (0..n).map(baseline).collect();
    rep.add("states", n as u64);
    let depth = if thorough { 4 } else { 3 };
    let show = |h: &[usize]| h.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ");
    let mut traces = 0;
    // all histories up to a length, one after the other in this process
    for len in 1..=depth {
        for code in 0..n.pow(len as u32) {
            let mut c = code;
            let h: Vec<usize> = (0..len)
                .map(|_| {
                    let i = c % n;
                    c /= n;
                    i
                })
                .collect();
            traces += 1;
            rep.inner.lock().unwrap().counts.entry("transitions".into()).and_modify(|x| *x += len as u64).or_insert(len as u64);
            for (i, got) in h.iter().zip(history(&h)) {
                if got != base[*i] {
                    rep.violation(
                        format!("schema {} gives another result: {}", i, norm::first_difference(&got, &base[*i])),
                        show(&h),
                        "",
                    );
                }
            }
            if rep.stopped() {
                return;
            }
            if code % 1201 == 0 {
                rep.sample(format!("history {}", show(&h)));
            }
        }
    }
    // every ordered pair of a family, in one sequence
    let all: Vec<usize> = (n..n + FAMILY.get_or_init(family).len()).collect();
    rep.add("states", all.len() as u64);
    let want = baselines(&all);
    let mut steps = 0;
    for (x, a) in all.iter().enumerate() {
        // a is followed by each b >= a and comes after each of them
        for (y, b) in all.iter().enumerate().skip(x) {
            for (i, w) in [(a, x), (b, y)] {
                steps += 1;
                let got = one(*i);
                if got != want[w] {
                    rep.violation(format!("schema {} gives another result: {}", i, norm::first_difference(&got, &want[w])), show(&[*a, *b, *a, *b]), "");
                }
            }
        }
        traces += 1;
        if rep.stopped() {
            return;
        }
    }
    // big ones: each next to itself, to its neighbours, to every small one, and after all others
    let large: Vec<usize> = (n + all.len()..n + all.len() + BIG.get_or_init(big).len()).collect();
    rep.add("states", large.len() as u64);
    let want = baselines(&large);
    let mut past: Vec<usize> = Vec::new();
    let mut visit = |i: usize, want: &str| {
        past.push(i);
        steps += 1;
        let got = one(i);
        if got != want {
            let from = past.len() - past.len().min(60);
            let what = format!("schema {} gives another result: {}", i, norm::first_difference(&got, want));
            // the shortest part of the past which shows it again
            let h = (from..past.len()).rev().map(|k| &past[k..]).find(|h| judge(h).is_some()).unwrap_or(&past);
            rep.violation(what, show(h), "");
        }
        !rep.stopped()
    };
    for back in [false, true] {
        for k in 0..large.len() {
            let k = if back { large.len() - 1 - k } else { k };
            for _ in 0..3 {
                if !visit(large[k], &want[k]) {
                    return;
                }
            }
        }
    }
    for k in 0..large.len() {
        for s in 0..n {
            if !visit(s, &base[s]) || !visit(large[k], &want[k]) {
                return;
            }
        }
        traces += 1;
    }
    if thorough {
        for j in 0..large.len() {
            for k in j..large.len() {
                if !visit(large[j], &want[j]) || !visit(large[k], &want[k]) {
                    return;
                }
            }
            traces += 1;
        }
    }
    // schemas which are alike: every ordered pair of each size
    let from = large.last().unwrap() + 1;
    let same: Vec<usize> = (from..from + ALIKE.get_or_init(alike).len()).collect();
    rep.add("states", same.len() as u64);
    let want = baselines(&same);
    for a in 0..same.len() {
        for b in 0..same.len() {
            if text(same[a]).len() != text(same[b]).len() {
                continue;
            }
            if !visit(same[a], &want[a]) || !visit(same[b], &want[b]) {
                return;
            }
        }
        traces += 1;
    }
    rep.add("transitions", steps);
    // the same schema many times in a row
    for i in 0..n {
        traces += 1;
        for k in 0..300 {
            if one(i) != base[i] {
                rep.violation(format!("schema {} gives another result the {}th time", i, k + 1), show(&vec![i; k + 1]), "");
                break;
            }
        }
    }
    // all pairs at the same time in two threads, both orders of starting
    for a in 0..n {
        for b in 0..n {
            traces += 1;
            let (ra, rb) = std::thread::scope(|s| {
                let t = s.spawn(|| history(&[a, b, a]));
                let u = s.spawn(|| history(&[b, a, b]));
                (t.join().unwrap(), u.join().unwrap())
            });
            for (i, got) in [a, b, a, b, a, b].iter().zip(ra.iter().chain(rb.iter())) {
                if *got != base[*i] {
                    rep.violation(format!("schema {} gives another result next to another thread", i), show(&[a, b, a]), "");
                }
            }
        }
    }
    rep.add("traces", traces);
}
