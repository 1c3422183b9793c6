mod ast;
mod c01;
mod c02;
mod c03;
mod c04;
mod c07;
mod c16;
mod choices;
mod cspace;
mod lang;
mod norm;
mod report;
mod schema;
mod texts;
mod under;

use std::io::{Read, Write};

/// Chooses the iteration order of the hash maps in the code under test. Without
/// the hook the order is random, as it is in production.
pub fn order(keys: &[&str]) {
    #[cfg(packetc_mc)]
    packetc_lib::mc_hash::set_order(keys);
    #[cfg(not(packetc_mc))]
    let _ = keys;
}

/// Whether the hook really chooses the order
fn order_works() -> bool {
    #[cfg(packetc_mc)]
    {
        let keys = ["a", "bb", "c", "dd"];
        return choices::permutations(&keys).iter().all(|p| {
            order(p);
            let m: packetc_lib::mc_hash::HashMap<&str, u8> = keys.iter().map(|k| (*k, 0)).collect();
            m.iter().map(|(k, _)| *k).collect::<Vec<_>>() == *p
        });
    }
    #[allow(unreachable_code)]
    false
}

fn u32le(n: usize) -> [u8; 4] { (n as u32).to_le_bytes() }

/// Compiles length-prefixed schemas from standard input. The answer to each is a
/// status byte (0 module, 1 syntax error, 2 type error, 3 panic) and a
/// length-prefixed text.
fn service() {
    let mut input = Vec::new();
    std::io::stdin().read_to_end(&mut input).unwrap();
    let mut texts = Vec::new();
    let mut at = 0;
    while at < input.len() {
        let mut len = [0; 4];
        len.copy_from_slice(&input[at..at + 4]);
        let len = u32::from_le_bytes(len) as usize;
        texts.push(std::str::from_utf8(&input[at + 4..at + 4 + len]).unwrap());
        at += 4 + len;
    }
    let mut out = Vec::new();
    order(&[]);
    for t in texts {
        use under::Outcome::*;
        let (status, text) = match under::compile(t) {
            Module(m) => (0, m),
            Syntax(e) => (1, e),
            Types(e) => (2, e),
            Panic(e) => (3, e),
        };
        out.push(status);
        out.extend(&u32le(text.len()));
        out.extend(text.as_bytes());
    }
    std::io::stdout().write_all(&out).unwrap();
}

/// Re-evaluates one violation: `replay PROP INPUT-FILE HOW-FILE`
fn replay(prop: &str, input: &str, how: &str) -> Option<String> {
    match prop {
        "C01" => c01::judge(input),
        "C02" => c02::judge(how, input),
        "C03" => c03::judge(input),
        "C04" | "C05" | "C06" => {
            let s = schema::Schema::parse(input).expect("replay input");
            let order: Vec<&str> = how.split(' ').collect();
            c04::judge_both(prop, &s, &order, &s.defects())
        }
        "C07" => {
            let mut parts = how.splitn(2, "\n---\n");
            let order: Vec<&str> = parts.next().unwrap().split(' ').collect();
            c07::judge(parts.next().unwrap(), input, &order)
        }
        "C16" => c16::judge(&input.split(' ').map(|n| n.trim().parse().unwrap()).collect::<Vec<usize>>()),
        _ => panic!("unknown property"),
    }
}

fn main() {
    report::install_hook();
    report::watch();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rep = report::Report::default();
    let thorough = args.get(1).map(|s| s.as_str()) == Some("thorough");
    match args[0].as_str() {
        "C01" => c01::run(&rep, thorough),
        "C02" => c02::run(&rep, thorough),
        "C03" => c03::run(&rep, thorough),
        p @ "C04" | p @ "C05" | p @ "C06" => c04::run(&rep, p, thorough),
        "C07" => c07::run(&rep, thorough),
        "C16" => c16::run(&rep, thorough),
        "compile" => return service(),
        "one" => return print!("{}", c16::one(args[1].parse().unwrap())),
        "replay" => {
            let read = |p: &str| std::fs::read_to_string(p).unwrap();
            match replay(&args[1], &read(&args[2]), &read(&args[3])) {
                Some(what) => println!("violated: {}", what),
                None => println!("holds"),
            }
            return;
        }
        _ => std::process::exit(3),
    }
    rep.outcome("hash order chosen", order_works() as u64);
    print!("{}", rep.to_json());
}
