//! All layouts of some schemas, up to a number of gaps with an unusual layout.
use crate::choices::explore;
use crate::lang;
use crate::norm;
use crate::report::{json_str, shards, Report, SHARDS};
use std::collections::BTreeSet;
use crate::under::compile;
use crate::report::{at};

#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    /// exact text
    T(&'static str),
    /// between tokens of one line
    H,
    /// inside an export, where at least one blank is needed
    H1,
    /// before the first statement, or between or after statements
    Top,
    /// after an export, before another statement
    TopAfterWord,
    EnumStart,
    EnumSep,
    EnumEnd,
    StructStart,
    StructEmpty,
    FieldSep,
    /// after `[]`, where no separator is needed at all
    FieldSepArray,
    StructEnd,
    /// after the last statement
    End,
}
use P::*;

/// The ways to fill a gap, the usual one first
fn fill(p: P) -> &'static [&'static str] {
    match p {
        T(_) => unreachable!(),
        H => &[" ", "", "\t", "   ", "\t \t"],
        H1 => &[" ", "\t", "   ", "\t \t"],
        Top => &[
            "\n", "", " ", "\t", "\r\n", "\n\n", "\r\n\r\n", "\n \n", "\n\t\n\n", "\r\n \t\r\n", "# c\n", " # c: struct { x: uint8 }\n",
            "#\n", "\n  # ünï, } export X\n\n", "# c\r\n", "\n#a\n#b\n", "##\n \n", "\n# c\n  \n\t# d\n",
        ],
        TopAfterWord => &[
            "\n", " ", "\t", "\r\n", "\n\n", "\n \n", "# c\n", " # c: struct { x: uint8 }\n", "#\n", "\n  # ünï, } export X\n\n",
            "# c\r\n", "\n#a\n#b\n",
        ],
        EnumStart => &[" ", "", "\n", "\r\n", "\t", "\n    ", "\n \n", "\r\n\r\n\t"],
        EnumSep => &[", ", ",", " ", "\n", ",\n", " , ", "\n,\n", "\r\n", "\t,\r\n", ",\n \n", " \n\t", ",  "],
        EnumEnd => &[" ", "", ",", ", ", ",\n", "\n", "\r\n", "\n \n", "\t,\t", "\n,\n"],
        StructStart => &[
            " ", "", "\n", "\n    ", "\r\n", "\t", "\n \n", "# c\n", "\n# c\n", " # c }\n  # d, e: f\n", "#\r\n", "\n\n#\n\n\t", "# ünï\n",
        ],
        StructEmpty => &[" ", "", "\n", "\r\n", "\t", "# c\n", "\n# c }\n# d\n", "#\n"],
        FieldSep => &[
            ", ", ",", " ", "\n", ",\n", " , ", "\n,\n", "\r\n", ",\r\n", "\t,\t", ", # c\n", " # c\n", "# c\n", ",# c }\n\n# d\n", ",\n \n",
            " \n\t", ",#\r\n", "\n#\n", ", # a: uint8,\n  ",
        ],
        FieldSepArray => &[
            ", ", "", ",", " ", "\n", ",\n", " , ", "\n,\n", "\r\n", ",\r\n", ", # c\n", "# c\n", ",# c }\n\n# d\n", " \n\t", "\n#\n",
        ],
        StructEnd => &[
            " ", "", ",", ", ", ",\n", "\n", "\r\n", "\n \n", "\t,\t", "\n,\n", "# c\n", " # c\n", ",# c\n", ", # } \n# d\n\n", "\n\n#\n", ",\r\n",
        ],
        End => &[
            "\n", "", " ", "\t", "\r\n", "\n\n", "\n \n", "# c", "# c\n", " #", "\n# c\n\n#", "\n# é", "\r\n\t\r\n", "\n \t", "#\r\n",
        ],
    }
}

fn bases() -> Vec<Vec<P>> {
    let s = |v: &[P]| v.to_vec();
    vec![
        // every construct once
        s(&[
            Top, T("E"), H, T(":"), H, T("enum"), H, T("{"), EnumStart, T("A"), EnumSep, T("B"), EnumEnd, T("}"), Top, T("S"), H, T(":"), H,
            T("struct"), H, T("{"), StructStart, T("x"), H, T(":"), H, T("float"), FieldSep, T("y?:"), H, T("E"), FieldSep, T("z"), H,
            T(":"), H, T("string[]"), StructEnd, T("}"), Top, T("export"), H1, T("S"), End,
        ]),
        // keyword-like names, arrays and optional fields in different orders, export first
        s(&[
            Top, T("export"), H1, T("structure"), TopAfterWord, T("enumeration"), H, T(":"), H, T("enum"), H, T("{"), EnumStart, T("exported"),
            EnumEnd, T("}"), Top, T("structure"), H, T(":"), H, T("struct"), H, T("{"), StructStart, T("uint8s"), H, T("?:"), H, T("uint8"),
            FieldSep, T("export_"), H, T(":"), H, T("enumeration[]"), FieldSepArray, T("strings"), H, T(":"), H, T("uint16"), StructEnd,
            T("}"), End,
        ]),
        // export between declarations, empty struct, struct in struct
        s(&[
            Top, T("V:"), H, T("struct"), H, T("{"), StructEmpty, T("}"), Top, T("export"), H1, T("W"), TopAfterWord, T("W"), H, T(":"),
            H, T("struct"), H, T("{"), StructStart, T("v"), H, T(":"), H, T("V[]"), FieldSepArray, T("w"), H, T("?:"), H, T("V"), StructEnd,
            T("}"), Top, T("U"), H, T(":"), H, T("enum"), H, T("{"), EnumStart, T("a"), EnumSep, T("b1"), EnumSep, T("_"), EnumEnd, T("}"), End,
        ]),
    ]
}

const NUMBERED: [&str; 40] = [
    "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "a10", "a11", "a12", "a13", "a14", "a15", "a16", "a17", "a18", "a19", "a20",
    "a21", "a22", "a23", "a24", "a25", "a26", "a27", "a28", "a29", "a30", "a31", "a32", "a33", "a34", "a35", "a36", "a37", "a38", "a39",
];

/// `n` fields, up to `n` variants, some declarations
fn large(n: usize) -> Vec<P> {
    let mut out = vec![Top, T("E"), H, T(":"), H, T("enum"), H, T("{"), EnumStart];
    for (i, v) in NUMBERED[..n.min(32)].iter().enumerate() {
        if i > 0 {
            out.push(EnumSep);
        }
        out.push(T(v));
    }
    out.extend(vec![EnumEnd, T("}")]);
    for s in ["R", "S"].iter() {
        out.extend(vec![Top, T(s), H, T(":"), H, T("struct"), H, T("{"), StructStart]);
        for (i, v) in NUMBERED[..n].iter().enumerate() {
            if i > 0 {
                out.push(if i % 3 == 1 { FieldSepArray } else { FieldSep });
            }
            let t = match (i % 3, *s) {
                (0, "S") if i == 0 => "R[]",
                (0, _) => "string[]",
                (1, _) => "E",
                _ => "uint16",
            };
            out.extend(vec![T(v), H, T(if i % 3 == 1 { "?:" } else { ":" }), H, T(t)]);
        }
        out.extend(vec![StructEnd, T("}")]);
    }
    out.extend(vec![Top, T("export"), H1, T("S"), TopAfterWord, T("Unused"), H, T(":"), H, T("enum"), H, T("{"), EnumStart, T("x"), EnumEnd, T("}"), End]);
    out
}

/// Where a gap may contain a comment: what comes before and after it
fn commented(p: P) -> Option<&'static [(&'static str, &'static str)]> {
    match p {
        Top | TopAfterWord | StructStart | StructEmpty => Some(&[("#", "\n"), ("\n  #", "\r\n\n"), ("\n#", "\n")]),
        FieldSep | FieldSepArray | StructEnd => Some(&[(",#", "\n"), ("#", "\n"), (", \n\t# ", "\n \n"), (",\n#", "\r\n")]),
        End => Some(&[("#", ""), ("#", "\n"), ("\n #", "\r\n"), ("\n#", "\n")]),
        _ => None,
    }
}

/// What a comment may say: every character, every two of some, words of the
/// language, text as in other languages, any length
fn contents(thorough: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for c in crate::texts::every_char() {
        if c != '\n' {
            out.push(c.to_string());
            out.push(format!(" a{} b", c));
        }
    }
    let some: Vec<char> = "ax_0 \t\r#:?{}[],.;-=/*\\'\"!é€😀\0".chars().collect();
    for a in &some {
        for b in &some {
            out.push(format!("{}{}", a, b));
            if thorough {
                out.extend(some.iter().map(|c| format!("{}{}{}", a, b, c)));
            }
        }
    }
    for w in [
        "enum", "struct", "export", "uint8", "export X", " export X ", "X: struct { a: uint8 }", "X: enum { A, B }", "}", "{", " } ", "a: uint8,", "a: b[]", "TODO",
        "http://x.y/z?a=b#c", "/* c */", "// c", "<!-- c -->", "--", "\"\"\"", "{}", "{{}}", "[]", "\\n", "\\", "$x ${x} {x}", "%s %d", "#!/bin/sh", "@ts-ignore", "region",
        "pragma once", "include \"a.pkt\"", "\r", "a\rb", "\r\r", "\r\ra", "\ra: b\r", "\u{feff}", "\u{2028}export Y", "\u{85}}", "e\u{301}", "日本語", "مرحبا",
    ] {
        out.push(w.to_string());
    }
    // signs at the end of a line, once or more
    for c in (33..127u8).map(|c| c as char).filter(|c| !c.is_ascii_alphanumeric()) {
        for n in 2..=5 {
            let signs = c.to_string().repeat(n);
            out.push(format!(" a {}", signs));
            out.push(signs + "\r");
        }
        out.push(format!("a{}\r", c));
        out.push(format!("a {} ", c));
    }
    // words which mean something to other tools, as they are usually written
    for w in WORDS.split_whitespace() {
        for form in ["w", " w", "w x", " w: x", "!w", "@w", " @w", "w!", "[w]", "<w>", "w(x)", "-w", "W", "w=1", "/w", "$w"].iter() {
            let word = if *form == "W" { w.to_uppercase() } else { w.to_string() };
            out.push(form.replace('w', &word).replace('W', &word));
        }
    }
    for n in (1..=(if thorough { 1100 } else { 300 })).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]) {
        out.push("c".repeat(n));
        if n % 16 < 2 {
            out.push("é}".repeat(n));
        }
    }
    out
}

const WORDS: &str = "end endif if ifdef ifndef else elif elseif fi include define undef pragma region endregion import from use using require extern module package namespace \
    syntax option options message service version note todo fixme xxx hack bug warn warning error info debug off on enable disable enabled disabled skip ignore nolint noqa \
    begin start stop eof break exit return quit halt abort done marker comment uncomment line file source generated include_once once deprecated since author \
    license copyright param type types name alias default const let var static public private internal hidden readonly optional required packed align size endian le be \
    little big uint8 uint16 uint32 int8 int16 int32 float string struct enum export exports true false null none nil self this macro template inline doc summary example see \
    test tests only lang language ts typescript rust pkt packet packetc schema format fmt prettier eslint clang stylua rustfmt cfg feature allow deny derive serde";

/// Comments which belong together elsewhere: what the first and what the second one says
fn blocks() -> Vec<(String, String)> {
    let plain = "begin end|start end|start stop|start finish|open close|push pop|on off|off on|enable disable|disable enable|if endif|if fi|if end|ifdef endif|ifndef endif|if else|else endif|region endregion|do done|{ }|[ ]|( )|< >|\
        /* */|/** */|<!-- -->|{- -}|(* *)|#[ ]#|--[[ ]]|{{{ }}}|<<< >>>|<<<<<<< >>>>>>>|======= >>>>>>>|\"\"\" \"\"\"|``` ```|~~~ ~~~|--- ---|=== ===|+++ +++|*** ***|%{ %}|<% %>|<? ?>|{% %}|<<EOF EOF|=begin =end|=pod =cut|\\begin \\end|\
        ignore unignore|skip unskip|comment uncomment|define undef|macro endmacro|block endblock|section endsection|module endmodule|group endgroup|fold unfold|lock unlock|@{ @}|first last|from to|before after|pre post|head tail|a a|x x";
    let nouns = "ignore ignored skip skipped comment comments block code region section generated custom manual private internal hidden public docs doc test tests example disabled unused remove exclude excluded omit delete cut no lint \
        format packetc pkt schema todo draft old legacy deprecated";
    let mut pairs: Vec<(String, String)> = plain
        .split('|')
        .filter_map(|p| {
            let mut words = p.split_whitespace();
            Some((words.next()?.to_string(), words.next()?.to_string()))
        })
        .collect();
    let few: Vec<_> = pairs.iter().take_while(|p| p.0 != "{").cloned().collect();
    for noun in nouns.split_whitespace() {
        pairs.push((noun.to_string(), format!("/{}", noun)));
        pairs.push((format!("<{}>", noun), format!("</{}>", noun)));
        pairs.push((format!("[{}]", noun), format!("[/{}]", noun)));
        pairs.push((noun.to_string(), format!("end{}", noun)));
        for (a, b) in &few {
            for join in [" ", "-", "_", ":", ""].iter() {
                pairs.push((format!("{}{}{}", a, join, noun), format!("{}{}{}", b, join, noun)));
                pairs.push((format!("{}{}{}", noun, join, a), format!("{}{}{}", noun, join, b)));
            }
        }
    }
    let upper: Vec<_> = pairs.iter().map(|(a, b)| (a.to_uppercase(), b.to_uppercase())).filter(|p| p.0.starts_with(char::is_uppercase)).collect();
    pairs.extend(upper);
    ["", " ", "@", "!", " @"].iter().flat_map(|lead| pairs.iter().map(move |(a, b)| (format!("{}{}", lead, a), format!("{}{}", lead, b)))).collect()
}

/// Up to three letters, and signs
fn letters() -> Vec<String> {
    let all: Vec<String> = ('a'..='z').map(|c| c.to_string()).collect();
    let parts: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
    let mut out = sequences(&parts, 3);
    // every two characters, every three signs, and any sign many times
    let ascii: Vec<String> = (32..127u8).map(|c| (c as char).to_string()).collect();
    let signs: Vec<&str> = ascii.iter().map(|s| s.as_str()).filter(|s| !s.starts_with(|c: char| c.is_ascii_alphanumeric())).collect();
    for form in ["", " ", " 9"].iter() {
        for a in &ascii {
            out.extend(ascii.iter().map(|b| format!("{}{}{}", form, a, b)));
            for n in (3..=20).chain([32, 40, 64, 72, 76, 78, 79, 80, 100, 120]) {
                out.push(format!("{}{}", form, a.repeat(n)));
            }
        }
    }
    for form in ["", " "].iter() {
        for a in sequences(&signs, 3) {
            if a.len() == 3 {
                out.push(format!("{}{}", form, a));
            }
        }
    }
    out
}

/// How often layout may be repeated in one gap
fn repeats(thorough: bool) -> Vec<usize> {
    (2..=(if thorough { 600 } else { 130 })).chain([255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 65536]).collect()
}

fn repeated(p: P) -> &'static [(&'static str, &'static str)] {
    // the part which is repeated, and what comes first
    match p {
        T(_) => &[],
        H | H1 => &[("", " "), ("", "\t"), ("", " \t")],
        Top | TopAfterWord | StructStart | StructEmpty | End => {
            &[("", "\n"), ("\n", " "), ("", "\r\n"), ("\n", " \n"), ("\n", "\t"), ("\n", "# c\n"), ("\n", "#\n\n")]
        }
        EnumStart => &[("", " "), ("", "\n"), ("", "\r\n"), ("", " \n\t")],
        EnumSep => &[(",", " "), (",", "\n"), ("", "\n"), ("\n", "\r\n"), ("", " "), ("", "\t\n")],
        EnumEnd => &[(",", "\n"), ("", " "), ("", "\r\n"), (",\n", " ")],
        FieldSep | FieldSepArray | StructEnd => {
            &[(",", " "), (",", "\n"), ("", "\n"), ("\n", "\r\n"), ("", " "), ("", "\t\n"), (",", "# c\n"), ("\n", "# c\n"), (",", "#\n\n")]
        }
    }
}

/// All sequences of so many parts
fn sequences(parts: &[&str], most: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = 0;
    for _ in 0..most {
        let from = last;
        last = out.len();
        for i in from..last {
            for p in parts {
                out.push(format!("{}{}", out[i], p));
            }
        }
    }
    out
}

/// All short layouts of a gap
fn short(p: P, thorough: bool) -> Vec<String> {
    let more = thorough as usize;
    let blank = [" ", "\t", "\n", "\r", "\r\n"];
    let plain = [" ", "\t", "\n", "\r\n"];
    let mixed = [" ", "\t", "\n", "\r\n", "#\n", "# c\r\n"];
    let full = |v: Vec<String>| v.into_iter().filter(|x| !x.is_empty()).collect::<Vec<_>>();
    match p {
        T(_) => vec![],
        H => sequences(&[" ", "\t"], 7 + more),
        H1 => full(sequences(&[" ", "\t"], 7 + more)),
        Top | StructStart | StructEmpty => [sequences(&mixed, 4 + more), sequences(&plain, 6 + more)].concat(),
        TopAfterWord => full([sequences(&mixed, 4 + more), sequences(&plain, 6 + more)].concat()),
        EnumStart => [sequences(&blank, 4 + more), sequences(&plain, 6 + more)].concat(),
        End => sequences(&mixed, 4 + more).into_iter().flat_map(|x| [format!("{}#", x), format!("{}# c", x), x]).collect(),
        EnumSep | EnumEnd | FieldSep | FieldSepArray | StructEnd => {
            let after = if matches!(p, EnumSep | EnumEnd) { &blank[..] } else { &mixed[..] };
            let mut out = Vec::new();
            for a in sequences(&blank, 2 + more) {
                out.extend(sequences(after, 2 + more).into_iter().map(|b| format!("{},{}", a, b)));
            }
            out.extend(sequences(&blank[..3], 4 + more).into_iter().flat_map(|a| [format!("{},", a), format!(",{}", a)]));
            let none = [sequences(after, 4 + more), sequences(&plain, 6 + more)].concat();
            out.extend(if matches!(p, EnumSep | FieldSep) { full(none) } else { none });
            out
        }
    }
}

fn compiled(text: &str) -> Result<String, String> {
    crate::order(&[]);
    at(|| (text.into(), text.into()));
    norm::result(compile(text))
}

pub fn judge(base: &str, text: &str) -> Option<String> { compare(&compiled(base).unwrap_or_default(), text) }

fn compare(want: &str, text: &str) -> Option<String> {
    if !want.starts_with("ok ") {
        return Some(format!("the usual layout does not compile: {}", want));
    }
    match compiled(text) {
        Err(_) => Some("the compiler panics".into()),
        Ok(got) if got == want => None,
        Ok(got) => Some(format!("this layout changes the result: {}", norm::first_difference(&got, want))),
    }
}

pub fn run(rep: &Report, thorough: bool) {
    let mut bases = bases();
    let small = bases.len();
    bases.extend((1..=if thorough { 40 } else { 12 }).chain([16, 17, 24, 32, 33, 40].iter().copied().filter(|_| !thorough)).map(large));
    let contents = contents(thorough);
    let letters = letters();
    let blocks = blocks();
    rep.add("pairs of comment texts", blocks.len() as u64);
    rep.add("comment texts", (contents.len() + letters.len()) as u64);
    let mut edges = BTreeSet::new();
    for (b, base) in bases.iter().enumerate() {
        let usual: String = base.iter().map(|p| if let T(t) = p { t } else { fill(*p)[0] }).collect();
        let gaps = base.iter().filter(|p| !matches!(p, T(_))).count();
        rep.add("gaps", gaps as u64);
        rep.add("ways to fill a gap", base.iter().filter(|p| !matches!(p, T(_))).map(|p| fill(*p).len() as u64).sum());
        let tree = lang::parse(&usual).expect("the usual layout is in the language");
        let want = compiled(&usual).unwrap_or_default();
        // which part of the state machine do the layouts go through?
        explore(1, |c| {
            let text: String = base.iter().map(|p| if let T(t) = p { t } else { fill(*p)[c.choose(fill(*p).len())] }).collect();
            let mut s = lang::State::Top;
            for ch in text.chars() {
                edges.insert((s, ch));
                s = s.step(ch);
            }
            true
        });
        shards(|shard| {
            let (mut i, mut n) = (0usize, 0u64);
            let mut check = |text: &str| {
                n += 1;
                assert!(lang::parse(text).as_ref() == Some(&tree), "layout outside the language: {:?}", text);
                if let Some(what) = compare(&want, text) {
                    rep.violation(what, text, usual.as_str());
                } else if n % 50_003 == 0 {
                    rep.sample(json_str(text));
                }
            };
            // up to `bound` unusual gaps
            let bound = match (b < small, thorough) {
                (true, true) => 4,
                (true, false) => 3,
                // larger schemas: one unusual gap anywhere, two in the smaller ones
                (false, true) => if b - small < 4 { 2 } else { 1 },
                (false, false) => if b - small < 2 { 2 } else { 1 },
            };
            let mut text = String::new();
            explore(bound, |c| {
                text.clear();
                for p in base {
                    match p {
                        T(t) => text.push_str(t),
                        g => text.push_str(fill(*g)[c.choose(fill(*g).len())]),
                    }
                }
                i += 1;
                if i % SHARDS == shard {
                    check(&text);
                }
                !rep.stopped()
            });
            // one gap with any comment, or with much layout
            for (g, p) in base.iter().enumerate() {
                if b >= small {
                    break;
                }
                let mut with = |fill: &str| {
                    text.clear();
                    for (h, q) in base.iter().enumerate() {
                        match q {
                            T(t) => text.push_str(t),
                            _ if g == h => text.push_str(fill),
                            q => text.push_str(self::fill(*q)[0]),
                        }
                    }
                    check(&text);
                };
                for (pre, post) in commented(*p).unwrap_or(&[]) {
                    i += 1;
                    if i % SHARDS != shard {
                        continue;
                    }
                    for c in &contents {
                        with(&format!("{}{}{}", pre, c, post));
                    }
                    // once for each kind of gap
                    if *pre == commented(*p).unwrap()[0].0 && base[..g].iter().all(|q| q != p) && (b == 0 || thorough) {
                        for c in &letters {
                            with(&format!("{}{}{}", pre, c, post));
                        }
                    }
                }
                i += 1;
                if i % SHARDS == shard {
                    for fill in short(*p, thorough) {
                        with(&fill);
                    }
                }
                for (first, part) in repeated(*p) {
                    i += 1;
                    if i % SHARDS != shard {
                        continue;
                    }
                    for n in repeats(thorough) {
                        with(&format!("{}{}", first, part.repeat(n)));
                    }
                }
            }
            // a comment in each gap which may have one, with any character there is
            for c in ('\u{80}'..=char::MAX).filter(|c| b == 0 && *c as usize % SHARDS == shard) {
                if rep.stopped() {
                    break;
                }
                text.clear();
                for p in base {
                    match (p, commented(*p)) {
                        (T(t), _) => text.push_str(t),
                        (_, Some(ways)) => {
                            let (pre, post) = ways[c as usize / SHARDS % 2];
                            text.push_str(pre);
                            text.push(c);
                            text.push_str(post);
                        }
                        (p, None) => text.push_str(fill(*p)[0]),
                    }
                }
                check(&text);
            }
            // comments in two gaps which belong together elsewhere; each pair in some pairs of gaps
            let places: Vec<usize> = (0..base.len()).filter(|g| b < small && commented(base[*g]).is_some()).collect();
            for (k, (first, second)) in blocks.iter().enumerate().filter(|_| b < small) {
                for (x, g) in places.iter().enumerate() {
                    for (y, h) in places.iter().enumerate().skip(x + 1) {
                        i += 1;
                        if i % SHARDS != shard || !(thorough || (x * 7 + y) % 9 == k % 9) || rep.stopped() {
                            continue;
                        }
                        text.clear();
                        for (at, p) in base.iter().enumerate() {
                            match p {
                                T(t) => text.push_str(t),
                                p if at == *g || at == *h => {
                                    let ways = commented(*p).unwrap();
                                    let (pre, post) = ways[(k + x) % ways.len()];
                                    text.push_str(pre);
                                    text.push_str(if at == *g { first } else { second });
                                    text.push_str(post);
                                }
                                p => text.push_str(fill(*p)[0]),
                            }
                        }
                        check(&text);
                    }
                }
            }
            // all gaps of two kinds unusual at once
            for ka in 0..20 {
                for kb in 0..20 {
                    i += 1;
                    if i % SHARDS != shard {
                        continue;
                    }
                    for split in 0..4 {
                        text.clear();
                        let mut g = 0;
                        for p in base {
                            match p {
                                T(t) => text.push_str(t),
                                p => {
                                    let f = fill(*p);
                                    // alternate, or by kind
                                    let k = match split {
                                        0 => if g % 2 == 0 { ka } else { kb },
                                        1 => if *p == H { ka } else { kb },
                                        2 => if matches!(p, Top | TopAfterWord | End) { ka } else { kb },
                                        _ => if matches!(p, FieldSep | FieldSepArray | EnumSep) { ka } else { kb },
                                    };
                                    text.push_str(f[k % f.len()]);
                                    g += 1;
                                }
                            }
                        }
                        check(&text);
                    }
                }
            }
            rep.add("traces", n);
            rep.outcome(&if b < small { format!("layouts of schema {}", b + 1) } else { "layouts of larger schemas".into() }, n);
        });
    }
    rep.add("states", edges.iter().map(|(s, _)| s).collect::<BTreeSet<_>>().len() as u64);
    rep.add("transitions", edges.len() as u64);
}
