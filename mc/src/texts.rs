//! The text space of C01 and C03: a conformance suite for the state machine in
//! `lang`, plus all short token sequences, plus scaled-up schemas.
use crate::lang::{self, State};
use crate::report::{Report, SHARDS};
use std::collections::{BTreeMap, HashSet, VecDeque};

/// Characters which the language tells apart, and strangers
pub fn alphabet() -> Vec<char> {
    let mut a: Vec<char> = Vec::new();
    for k in lang::RESERVED.iter().chain(["export"].iter()) {
        a.extend(k.chars());
    }
    a.extend("AZaz_09 \t\n\r:?{}[],#.-;\"$é".chars());
    a.sort_unstable();
    a.dedup();
    a
}

/// One character per behaviour; enough to reach and to tell apart all states
pub fn small_alphabet() -> Vec<char> { "eAx_9 \t\n\r:?{}[],#.é".chars().collect() }

pub fn every_char() -> Vec<char> {
    let mut a: Vec<char> = (0u8..128).map(|c| c as char).collect();
    a.extend("\u{80}\u{85}\u{a0}\u{aa}µßéΑа٣Ⅷ\u{200b}\u{2028}\u{2029}\u{3000}\u{feff}\u{ff21}\u{ff5b}１😀\u{10ffff}".chars());
    a
}

pub struct Suite {
    /// state, shortest text which reaches it
    pub access: Vec<(State, String)>,
    pub transitions: u64,
    /// suffixes which tell any two states apart, and complete any of them
    pub w: Vec<String>,
    /// a shortest accepted completion of each state
    pub complete: BTreeMap<State, String>,
}

pub fn suite() -> Suite {
    let sigma = alphabet();
    let mut access = vec![(State::Top, String::new())];
    let mut seen: HashSet<State> = [State::Top, State::Dead].iter().copied().collect();
    let mut queue: VecDeque<usize> = VecDeque::from(vec![0]);
    let mut transitions = 0;
    while let Some(i) = queue.pop_front() {
        let (s, t) = access[i].clone();
        for &c in &sigma {
            let n = s.step(c);
            transitions += 1;
            if seen.insert(n) {
                access.push((n, format!("{}{}", t, c)));
                queue.push_back(access.len() - 1);
            }
        }
    }
    // shortest accepted completions, by backward search
    let mut complete: BTreeMap<State, String> = BTreeMap::new();
    for (s, _) in &access {
        if s.accepts() {
            complete.insert(*s, String::new());
        }
    }
    loop {
        let mut add = Vec::new();
        for (s, _) in &access {
            if complete.contains_key(s) {
                continue;
            }
            if let Some(t) = sigma
                .iter()
                .filter_map(|c| complete.get(&s.step(*c)).map(|t| format!("{}{}", c, t)))
                .min_by_key(|t| (t.len(), t.clone()))
            {
                add.push((*s, t));
            }
        }
        if add.is_empty() {
            break;
        }
        complete.extend(add);
    }
    // distinguishing suffixes, by partition refinement
    let mut states: Vec<State> = access.iter().map(|(s, _)| *s).collect();
    states.push(State::Dead);
    let mut w: Vec<String> = vec![String::new()];
    let class = |s: State, w: &[String]| -> Vec<bool> {
        w.iter().map(|t| t.chars().fold(s, State::step).accepts()).collect()
    };
    loop {
        let mut grew = false;
        let mut classes: BTreeMap<Vec<bool>, Vec<State>> = BTreeMap::new();
        for s in &states {
            classes.entry(class(*s, &w)).or_default().push(*s);
        }
        'split: for group in classes.values() {
            for pair in group.windows(2) {
                for &c in &sigma {
                    let (a, b) = (pair[0].step(c), pair[1].step(c));
                    let (ca, cb) = (class(a, &w), class(b, &w));
                    if let Some(i) = ca.iter().zip(&cb).position(|(x, y)| x != y) {
                        w.push(format!("{}{}", c, w[i]));
                        grew = true;
                        break 'split;
                    }
                }
            }
        }
        if !grew {
            break;
        }
    }
    let mut all: Vec<String> = w;
    all.extend(complete.values().cloned());
    // completions which put a tree behind the state, to compare what was lost
    for extra in [
        ":uint8}", ":uint8,b:int8}", "?:b[]}", "a:b[]}", "A}", "A,B}", " X:enum{Y}", "\nexport Z\n", ":struct{q:float}",
        ":enum{Q}", "#c\n", "#c\n}", "\n", ",", "[]}", "]}", "}",
    ] {
        all.push(extra.to_string());
    }
    all.sort();
    all.dedup();
    Suite { access, transitions, w: all, complete }
}

pub const CONTEXTS: [&str; 6] =
    ["", "E: enum { A, B }\n", "S: struct { x?: uint8, y: E[] }\n", "export T\n", "# note é }\n", " \t\r\n"];

struct Counter {
    n: u64,
}

/// Calls `f` with each text of the space that belongs to `shard`.
pub fn each(rep: &Report, shard: usize, thorough: bool, light: bool, f: &mut dyn FnMut(&str)) {
    let s = suite();
    let sigma = alphabet();
    let small = small_alphabet();
    let mut n = Counter { n: 0 };
    let mine = |i: usize| i % SHARDS == shard;
    let run = &mut |key: &str, n: &mut Counter, text: &str, f: &mut dyn FnMut(&str)| {
        let _ = key;
        n.n += 1;
        f(text);
    };

    // 1. access . sigma^k . W, where a dead prefix is not extended by sigma
    let k = if light { 1 } else if thorough { 3 } else { 2 };
    let mut buf = String::new();
    for (i, (state, access)) in s.access.iter().enumerate() {
        if !mine(i) || rep.stopped() {
            continue;
        }
        // the first step uses the full alphabet
        let mut level: Vec<(State, String)> = vec![(*state, access.clone())];
        for step in 0..=k {
            for (_, t) in &level {
                for w in &s.w {
                    buf.clear();
                    buf.push_str(t);
                    buf.push_str(w);
                    run("w", &mut n, &buf, f);
                }
            }
            if step == k {
                break;
            }
            let letters = if step == 0 || (thorough && step == 1) { &sigma } else { &small };
            let mut next = Vec::new();
            for (st, t) in &level {
                if *st == State::Dead {
                    continue;
                }
                for &c in letters {
                    next.push((st.step(c), format!("{}{}", t, c)));
                }
            }
            level = next;
        }
        rep.outcome("states conformance-tested", 1);
    }
    rep.add("texts: access.sigma^k.W", n.n);
    n.n = 0;
    // 2. the same after each kind of statement, k = 1
    for ctx in CONTEXTS.iter().skip(1) {
        for (i, (state, access)) in s.access.iter().enumerate() {
            if !mine(i) || rep.stopped() {
                continue;
            }
            for &c in sigma.iter().chain(std::iter::once(&'\0')) {
                for w in &s.w {
                    buf.clear();
                    buf.push_str(ctx);
                    buf.push_str(access);
                    if c != '\0' {
                        buf.push(c);
                    }
                    if c != '\0' && state.step(c) == State::Dead && w.len() > 1 {
                        continue;
                    }
                    buf.push_str(w);
                    run("ctx", &mut n, &buf, f);
                }
            }
        }
    }
    rep.add("texts: context.access.sigma.W", n.n);
    n.n = 0;
    // 3. every character at every state, completed
    for (i, (state, access)) in s.access.iter().enumerate() {
        if !mine(i) || rep.stopped() {
            continue;
        }
        for c in every_char() {
            let next = state.step(c);
            let done = s.complete.get(&next).or_else(|| s.complete.get(state)).unwrap();
            for tail in [done.as_str(), "", "\n", "\nexport Q"] {
                buf.clear();
                buf.push_str(access);
                buf.push(c);
                buf.push_str(done);
                if tail != done {
                    buf.push_str(tail);
                }
                run("char", &mut n, &buf, f);
                for ctx in CONTEXTS.iter().skip(1) {
                    run("char", &mut n, &format!("{}{}", ctx, buf), f);
                }
            }
        }
    }
    rep.add("texts: every character at every state", n.n);
    n.n = 0;
    // 4. all token sequences up to a depth; sequences stop at the first token
    //    which leaves the language (that sequence is still tried)
    let tokens = [
        "a", "B1", "enum", "struct", "export", "uint8", "uint8x", " ", "\t", "\n", "\r\n", ":", "?", "[]", "[", "{", "}", ",",
        "#c\n", "#", "1", "é",
    ];
    let depth = if light { 5 } else if thorough { 8 } else { 6 };
    let starts: [(&str, usize); 8] = [
        ("", 0), ("a:struct{", 1), ("a:enum{", 1), ("a:struct{b:c", 1), ("a: struct { b?: c[]", 1), ("a:enum{B", 1), ("export a", 1),
        ("a:struct{}", 1),
    ];
    fn dfs(
        text: &mut String, state: State, left: usize, tokens: &[&str], idx: &mut usize, shard: usize, split: usize, rep: &Report,
        f: &mut dyn FnMut(&str), n: &mut u64,
    ) {
        if rep.stopped() {
            return;
        }
        let comment = matches!(state, State::TopComment | State::FieldComment);
        // after two layout tokens a third one is left out, except in a comment
        let blanks = text.chars().rev().take_while(|c| c.is_ascii_whitespace()).count() >= 2;
        for t in tokens {
            if comment && !["a", "\n", "}", "é"].contains(t) || !comment && blanks && t.trim().is_empty() {
                continue;
            }
            let len = text.len();
            text.push_str(t);
            let next = t.chars().fold(state, State::step);
            let mut skip = false;
            if left == split {
                *idx += 1;
                skip = *idx % SHARDS != shard;
            }
            if !skip {
                *n += 1;
                f(text);
                if next != State::Dead && left > 1 {
                    dfs(text, next, left - 1, tokens, idx, shard, split, rep, f, n);
                }
            }
            text.truncate(len);
        }
    }
    for (start, less) in starts.iter() {
        let mut text = start.to_string();
        let state = lang::run(start);
        let d = depth - less;
        let mut count = 0;
        // the work is split over the shards at the second token
        dfs(&mut text, state, d, &tokens, &mut 0, shard, d - 1, rep, f, &mut count);
        n.n += count;
    }
    rep.add("texts: token sequences", n.n);
    n.n = 0;
    // 5. scaled-up schemas
    let top = if thorough { 400 } else { 150 };
    let beyond = [255, 256, 257, 258, 300, 400, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097];
    let mut turn = 0;
    for size in (1..=top).chain(beyond.iter().copied().filter(|n| *n > top)) {
        for t in scaled(size) {
            turn += 1;
            if mine(turn) && !rep.stopped() {
                run("scale", &mut n, &t, f);
            }
        }
    }
    for size in [10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000] {
        for t in names(size) {
            turn += 1;
            if mine(turn) && !rep.stopped() {
                run("scale", &mut n, &t, f);
            }
        }
    }
    rep.add("texts: scaled", n.n);
    n.n = 0;
    // statements, fields and variants in every order, and many of the same
    let parts: [(&str, &[&str], &[&str], &str, usize); 3] = [
        ("", &["export A", "B: enum { }", "C: enum { D, E }", "F: struct { }", "G: struct { a?: b[] }", "# c\n"], &[" ", "\n"], "", 6),
        ("A: struct {", &["a: b", "c?: d", "e: f[]", "g?: h[]", "# i\n"], &[" ", ",", "\n"], "}", 6),
        ("A: enum {", &["B", "c_1", "D9"], &[" ", ",", ",\n"], "}", 8),
    ];
    let mut turn = 0;
    for (pre, units, seps, post, most) in parts.iter() {
        let most = if light { most - 2 } else { most + thorough as usize };
        for sep in seps.iter() {
            let mut level: Vec<String> = vec![pre.to_string()];
            for _ in 0..most {
                level = level.iter().flat_map(|t| units.iter().map(move |u| format!("{}{}{}", t, u, sep))).collect();
                for t in &level {
                    turn += 1;
                    if mine(turn) && !rep.stopped() {
                        run("units", &mut n, &format!("{}{}", t, post), f);
                    }
                }
            }
            for size in 1..=if thorough { 200 } else { 70 } {
                for u in units.iter() {
                    for v in units.iter() {
                        turn += 1;
                        if mine(turn) && !rep.stopped() {
                            run("units", &mut n, &format!("{}{}{}{}", pre, format!("{}{}", u, sep).repeat(size), format!("{}{}", v, sep).repeat(1 + size % 3), post), f);
                        }
                    }
                }
            }
        }
    }
    rep.add("texts: statements, fields and variants in every order", n.n);
    n.n = 0;
    // 6. errors in long lines and long texts, in every width of character
    let top = if thorough { 2100 } else { 1030 };
    for size in (1..=top).chain([4095, 4096, 4097, 65535, 65536, 65537]) {
        if !mine(size) || rep.stopped() {
            continue;
        }
        for t in long(size) {
            run("long", &mut n, &t, f);
        }
    }
    rep.add("texts: long lines", n.n);
    n.n = 0;
    // 7. every character there is, where a name, a comment or nothing is expected
    let places: &[(&str, &str)] = &[
        ("A: struct { ", "a: b }"), ("#", "\nexport A]"), ("A", ": struct { }"), ("export A #", ""), ("", "A: enum { B }"), ("A: struct { a", ": b[] }"),
        ("A: struct { a: b", " }"), ("A: enum { B", ", C }"), ("A: struct { #", "\n}"), ("export ", "A"), ("A: enum { ", " }"), ("A:", "enum { B }"),
    ];
    for c in ('\u{80}'..=char::MAX).filter(|c| mine(*c as usize)) {
        for (pre, post) in &places[..if light { 3 } else { places.len() }] {
            buf.clear();
            buf.push_str(pre);
            buf.push(c);
            buf.push_str(post);
            run("unicode", &mut n, &buf, f);
        }
        if rep.stopped() {
            break;
        }
    }
    rep.add("texts: all characters", n.n);
    n.n = 0;
    // the line of the error: what is before it, and what is behind it
    let before = words_of(&["a: b, ", "\t", " ", "aaaaaaaa?: uint8[],", ","], 3);
    let behind = words_of(&["\t", " ", "x", "é", "😀", "\r", "#", "e\u{301}"], if thorough { 4 } else { 3 });
    for (i, b) in before.iter().enumerate() {
        for e in [";", "]", "é", "😀"].iter() {
            for (j, a) in behind.iter().enumerate() {
                if mine(i + j) && !rep.stopped() {
                    buf.clear();
                    buf.push_str("A: struct {\n");
                    for t in [b.as_str(), e, a.as_str(), "\n}"].iter() {
                        buf.push_str(t);
                    }
                    run("line", &mut n, &buf, f);
                }
            }
        }
    }
    rep.add("texts: lines with an error", n.n);
    n.n = 0;
    // 8. short names, words, and what differs a little from a keyword
    if light {
        return;
    }
    let lower: Vec<char> = ('a'..='z').collect();
    let any: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect();
    let mut batch = Vec::new();
    let mut turn = 0;
    let mut put = |name: &str, n: &mut Counter, f: &mut dyn FnMut(&str)| {
        if !name.is_empty() {
            batch.push(name.to_string());
        }
        if batch.len() == 500 || name.is_empty() {
            turn += 1;
            if mine(turn) && !rep.stopped() {
                for t in named(&batch) {
                    run("names", n, &t, f);
                }
            }
            batch.clear();
        }
    };
    each_word(&lower, if thorough { 5 } else { 4 }, &mut |w| put(w, &mut n, f));
    each_word(&any, 3, &mut |w| if !lang::RESERVED.contains(&w) && !w.starts_with(|c: char| c.is_ascii_digit()) { put(w, &mut n, f) });
    for w in words(&any) {
        put(&w, &mut n, f);
    }
    // longer ones of a few characters
    each_word(&['a', 'Z', '_', '0', '1'], if thorough { 7 } else { 6 }, &mut |w| if w.len() > 3 && !w.starts_with(|c: char| c.is_ascii_digit()) { put(w, &mut n, f) });
    put("", &mut n, f);
    // one by one, as keywords end a batch
    for (i, w) in words(&any).iter().chain(lang::RESERVED.iter().map(|k| k.to_string()).collect::<Vec<_>>().iter()).enumerate() {
        if mine(i) && !rep.stopped() {
            for t in named(&[w.clone()]) {
                run("names", &mut n, &t, f);
            }
        }
    }
    rep.add("texts: names", n.n);
}

/// All sequences of up to `len` parts
fn words_of(parts: &[&str], len: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..len {
        let to = out.len();
        for i in from..to {
            for p in parts {
                out.push(format!("{}{}", out[i], p));
            }
        }
        from = to;
    }
    out
}

/// All words of up to `len` letters
fn each_word(letters: &[char], len: usize, f: &mut dyn FnMut(&str)) {
    fn go(word: &mut String, letters: &[char], len: usize, f: &mut dyn FnMut(&str)) {
        for &c in letters {
            word.push(c);
            f(word);
            if len > 1 {
                go(word, letters, len - 1, f);
            }
            word.pop();
        }
    }
    go(&mut String::new(), letters, len, f)
}

/// Each name in each role
fn named(names: &[String]) -> Vec<String> {
    let list = |f: &dyn Fn(&String) -> String, sep: &str| names.iter().map(f).collect::<Vec<_>>().join(sep);
    vec![
        format!("A: struct {{ {} }}", list(&|n| format!("{}: B", n), ", ")),
        format!("A: struct {{ {} }}", list(&|n| format!("a?: {}[]", n), "\n")),
        format!("A: struct {{ {} }}", list(&|n| format!("{}?: {}", n, n), " ")),
        format!("A: enum {{ {} }}", list(&|n| n.clone(), ", ")),
        format!("A: enum {{ {} }}", list(&|n| n.clone(), " ")),
        list(&|n| format!("{}: enum {{ A }}", n), "\n"),
        list(&|n| format!("{}: struct {{ a: {} }} export {}", n, n, n), "\n"),
    ]
}

/// Words which other languages reserve or which this one might, and every word
/// at distance one from a keyword
pub fn words(any: &[char]) -> Vec<String> {
    let mut out: Vec<String> = "int64 uint64 int128 uint128 float16 float32 float64 double bool boolean byte bytes char short long unsigned signed void varint \
        int uint number bigint u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 usize isize str String Vec Option option some none Some None null nil undefined true false \
        optional required repeated message oneof map set list array vector tuple union variant record object table schema packet protocol \
        namespace module package import include use using from as type typedef interface class trait impl extends implements const static let var val \
        default exports exported public private protected internal extern abstract final override virtual new delete this self super \
        function func fn def return if else for while do loop switch case match break continue try catch finally throw throws async await yield \
        enumeration structure structs enums strings floats uint int8s string8 string16 wstring uint24 int24 uint40 fixed fixed32 fixed64 sfixed32 sint32 sint64 \
        date time datetime timestamp uuid any unknown never object symbol bit bits flags flag bitflags bitfield union_ group service rpc returns option extensions reserved \
        version syntax proto root_type rename alias where in of is not and or xor with global local end begin comment pragma define undef ifdef endif \
        length count size index item items len temp reader writer Reader Writer output buffer data read write constructor prototype __proto__ toString hasOwnProperty valueOf \
        Array ArrayBuffer Atomics BigInt Boolean DataView Date Error Float32Array Float64Array Function Infinity Int8Array Int16Array Int32Array Iterator JSON Map Math NaN Number Object \
        Promise Proxy Record Partial Pick Omit Readonly Reflect RegExp Set Symbol Uint8Array Uint16Array Uint32Array WeakMap WeakSet WeakRef globalThis console process window document arguments eval require exports \
        Char Str Text Void Null Any Unknown Never Undefined Type Kind Field Struct Enum Export Import Uint8 Uint16 Uint32 Int8 Int16 Int32 Float Double Bool Byte Bytes Unsigned \
        Packet Message Header Body Payload Frame Event Request Response Error Result Ok Err Id ID id Key Value Node List Dict HashMap HashSet Tuple Box Rc Arc RefCell Self crate mod pub mut ref dyn move box macro unsafe typeof instanceof debugger"
        .split_whitespace().map(|w| w.to_string()).collect();
    for base in ["int", "uint", "float", "i", "u", "f", "string", "enum", "struct", "export", "bool", "v"] {
        for bits in 0..=130 {
            out.push(format!("{}{}", base, bits));
        }
        out.push(base.to_uppercase());
        out.push(format!("{}{}", base[..1].to_uppercase(), &base[1..]));
    }
    for k in lang::RESERVED.iter().chain(["export"].iter()) {
        for at in 0..=k.len() {
            for c in any {
                out.push(format!("{}{}{}", &k[..at], c, &k[at..]));
                if at < k.len() {
                    out.push(format!("{}{}{}", &k[..at], c, &k[at + 1..]));
                }
            }
            if at < k.len() {
                out.push(format!("{}{}", &k[..at], &k[at + 1..]));
            }
        }
        for other in lang::RESERVED.iter().chain(["export"].iter()) {
            out.push(format!("{}{}", k, other));
            out.push(format!("{}_{}", k, other));
        }
    }
    out.retain(|w| !lang::RESERVED.contains(&w.as_str()) && !w.starts_with(|c: char| c.is_ascii_digit()));
    out.sort();
    out.dedup();
    out
}

/// Syntax errors with about `size` bytes before or after them
fn long(size: usize) -> Vec<String> {
    let mut out = Vec::new();
    for fill in ["a", "é", "€", "😀", "#", "\t"] {
        for shift in 0..fill.len() {
            let f = format!("{}{}", "x".repeat(shift), fill.repeat(size / fill.len()));
            out.push(format!("]#{}", f));
            out.push(format!("#{}\n]", f));
            out.push(format!("A: struct {{ #{}\n ] #{}", f, f));
        }
    }
    out.push(format!("A: enum {{ {}]", "B ".repeat(size / 2)));
    out.push(format!("{}]", " ".repeat(size)));
    out.push(format!("A: struct {{ a: {}\n] é", "b".repeat(size)));
    out.push(format!("{}]", "\n".repeat(size)));
    out.push(format!("{}]", "\r\n".repeat(size / 2)));
    out.push(format!("{}é", "#é\n".repeat(size / 4)));
    out
}

/// Names, comments and gaps of the given size
fn names(size: usize) -> Vec<String> {
    let name = "aZ_9".repeat(size / 4 + 1)[..size].to_string();
    let mut out = vec![format!("#{}\nexport A", name), format!("A: struct {{ a: b, #{}\nc?: d[] }}\nexport A", name)];
    for (pre, post) in [("", ": struct { }"), ("A: struct { ", "?: uint8 }"), ("A: struct { a: ", "[] }"), ("A: enum { B, ", ", C }"), ("export ", "")] {
        out.push(format!("{}{}{}", pre, name, post));
    }
    for ws in [" ", "\t", "\n", "\r\n"] {
        let w = ws.repeat(size);
        out.push(format!("{}A: enum {{{}V{},{}W{}}}{}export A{}", w, w, w, w, w, w, w));
    }
    out
}

/// Schemas in which one dimension has the given size, and broken ones next to them
fn scaled(size: usize) -> Vec<String> {
    let mut out = Vec::new();
    let name = "aZ_9".repeat(size / 4 + 1)[..size].to_string();
    for (pre, post) in [
        ("", ": struct { }"), ("A: struct { ", ": uint8 }"), ("A: struct { a: ", "[] }"), ("A: enum { ", " }"), ("export ", ""),
        ("export ", " "),
    ] {
        out.push(format!("{}{}{}", pre, name, post));
        out.push(format!("{}{}{}", pre, "_".repeat(size), post));
        // every keyword, extended to this length
        for k in lang::RESERVED.iter().chain(["export"].iter()) {
            if size <= 12 {
                out.push(format!("{}{}{}{}", pre, k, "8".repeat(size - 1), post));
                out.push(format!("{}{}{}{}", pre, "x".repeat(size - 1), k, post));
                out.push(format!("{}{}{}{}", pre, k, "_s".repeat(size - 1), post));
                out.push(format!("{}{}{}", pre, k.to_uppercase(), post));
            }
        }
    }
    for sep in [", ", " ", ",\n", "\r\n", " ,\t"] {
        for (i, ty) in [("a", "uint8"), ("b", "A_b[]"), ("c", "")].iter() {
            let fields: Vec<String> = (0..size)
                .map(|n| format!("{}{}{}: {}", i, n, if n % 3 == 0 { "?" } else { "" }, if ty.is_empty() { "float" } else { ty }))
                .collect();
            out.push(format!("A: struct {{ {} }}", fields.join(sep)));
            out.push(format!("A: struct {{ {}{} }}\nexport A", fields.join(sep), sep));
            out.push(format!("A: struct {{ {} ", fields.join(sep)));
        }
        let variants: Vec<String> = (0..size).map(|n| format!("V{}", n)).collect();
        out.push(format!("A: enum {{ {} }}", variants.join(sep)));
        out.push(format!("A: enum {{ {}{}}}", variants.join(sep), sep));
        out.push(format!("A: enum {{ {} ] }}", variants.join(sep)));
    }
    for sep in ["\n", " ", "\n\n", " # c\n", "\r\n"] {
        let decls: Vec<String> = (0..size)
            .map(|n| match n % 3 {
                0 => format!("E{}: enum {{ A, B }}", n),
                1 => format!("S{}: struct {{ a: E{}, b: string[] }}", n, n - 1),
                _ => format!("export S{}", n - 1),
            })
            .collect();
        out.push(decls.join(sep));
        out.push(format!("{}{}}}", decls.join(sep), sep));
    }
    for ws in [" ", "\t", "\n", "\r\n", " \n", "\n "] {
        let w = ws.repeat(size);
        out.push(w.clone());
        out.push(format!("{}A: enum {{{}V{},{}W{}}}{}export A{}", w, w, w, w, w, w, w));
        out.push(format!("A: struct {{{}a: b{},{}c?: d[]{}}}", w, w, w, w));
        out.push(format!("A{}:{}struct{}{{a{}:{}b{}[]}}", w, w, w, w, w, w));
    }
    let c = "#: }{,é".repeat(size / 7 + 1);
    out.push(format!("#{}\nexport A", c));
    out.push(format!("#{}", c));
    out.push(format!("A: struct {{ #{}\n a: b #{}\n }}", c, c));
    out.push(format!("A: struct {{ #{}", c));
    out.push("# c\n".repeat(size));
    out.push(format!("A: struct {{ {} }}", "# c\n".repeat(size)));
    out.push(format!("A: enum {{ {} }}", "# c\n".repeat(size)));
    out
}
