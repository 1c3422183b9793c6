//! The schema space of C04, C05 and C06.
use crate::report::{Report, SHARDS};
use crate::schema::{field, Body, Field, Item, Schema};

/// All lists of up to `max` fields over `kinds`, named by position
fn bodies(max: usize, kinds: &[(&str, bool, bool)], dup_names: bool) -> Vec<Vec<Field>> {
    let mut out: Vec<Vec<Field>> = vec![vec![]];
    let mut level: Vec<Vec<Field>> = vec![vec![]];
    for i in 0..max {
        let mut next = Vec::new();
        for l in &level {
            let names = if dup_names { i + 1 } else { 1 };
            for n in 0..names {
                // a new name, or that of an earlier field
                let name = if n == 0 { format!("f{}", i) } else { l[n - 1].name.clone() };
                if n > 0 && l[..n - 1].iter().any(|f| f.name == name) {
                    continue;
                }
                for (t, a, o) in kinds {
                    let mut l = l.clone();
                    l.push(field(&name, t, *a, *o));
                    next.push(l);
                }
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

fn st(name: &str, f: Vec<Field>) -> Item { Item::Decl(name.into(), Body::Struct(f)) }
fn en(name: &str, n: usize) -> Item { Item::Decl(name.into(), Body::Enum((0..n).map(|i| format!("V{}", i)).collect())) }
fn ex(name: &str) -> Item { Item::Export(name.into()) }

struct Sink<'a> {
    rep: &'a Report,
    shard: usize,
    i: usize,
    n: u64,
    f: &'a mut dyn FnMut(&Schema),
}
impl<'a> Sink<'a> {
    fn turn(&mut self) -> bool {
        self.i += 1;
        self.i % SHARDS == self.shard
    }
    fn put(&mut self, s: &Schema) {
        if !self.rep.stopped() {
            self.n += 1;
            (self.f)(s)
        }
    }
    fn end(&mut self, name: &str) {
        self.rep.add(&format!("schemas: {}", name), self.n);
        self.n = 0;
    }
}

/// All `n`-tuples of bodies
fn graphs(k: &mut Sink, n: usize, max: usize, kinds: &[&str], exports: &[&str], with_enum: bool, export_last: bool) {
    let kinds: Vec<(&str, bool, bool)> = kinds.iter().map(|t| (*t, false, false)).collect();
    let b = bodies(max, &kinds, false);
    tuples(k, n, &b, exports, with_enum, export_last)
}

fn tuples(k: &mut Sink, n: usize, b: &[Vec<Field>], exports: &[&str], with_enum: bool, export_last: bool) {
    let names = ["S0", "S1", "S2", "S3", "S4", "S5"];
    let mut idx = vec![0usize; n];
    loop {
        if k.turn() {
            let mut items: Vec<Item> = (0..n).map(|i| st(names[i], b[idx[i]].clone())).collect();
            if with_enum {
                items.push(en("E", 3));
            }
            for e in exports {
                let mut s = Schema(items.clone());
                if export_last {
                    s.0.push(ex(e));
                } else {
                    s.0.insert(0, ex(e));
                }
                k.put(&s);
            }
        }
        let mut p = 0;
        loop {
            if p == n {
                return;
            }
            idx[p] += 1;
            if idx[p] < b.len() {
                break;
            }
            idx[p] = 0;
            p += 1;
        }
        if k.rep.stopped() {
            return;
        }
    }
}

/// What may come before or after a name: all one or two characters, and words
pub fn affixes() -> (Vec<String>, Vec<String>) {
    let any: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect();
    let mut short: Vec<String> = any.iter().map(|c| c.to_string()).collect();
    for a in &any {
        short.extend(any.iter().map(|b| format!("{}{}", a, b)));
    }
    let mut words = Vec::new();
    for w in "get set is has in on off to of the my our new old raw tmp temp num max min cnt len str ptr ref val var opt arr vec map enum struct type kind impl base abstract internal private public \
        id key name data info list item items array count size length flag flags mask bit bits pos end begin start first last next prev left right up down msg packet req res cmd evt err None Some \
        v1 v2 V1 V2 v10 u8 u16 u32 i8 i16 i32 f32 s es ies ed er ing ly un re pre post non sub super"
        .split_whitespace()
    {
        let cap = format!("{}{}", w[..1].to_uppercase(), &w[1..]);
        words.extend([w.to_string(), cap, format!("{}_", w), format!("_{}", w), w.to_uppercase(), format!("{}_", w.to_uppercase()), format!("_{}", w.to_uppercase()), format!("__{}", w)]);
    }
    words.retain(|w| !short.contains(w));
    words.sort();
    words.dedup();
    (short, words)
}

/// Acyclic schemas: struct number r uses only `leaves` and structs below r; the
/// declarations come in every order
fn acyclic(k: &mut Sink, n: usize, max: usize, leaves: &[&str]) {
    let names = ["S0", "S1", "S2", "S3"];
    let b: Vec<Vec<Vec<Field>>> = (0..n)
        .map(|r| {
            let kinds: Vec<(&str, bool, bool)> = leaves.iter().chain(names[..r].iter()).map(|t| (*t, false, false)).collect();
            bodies(max, &kinds, false)
        })
        .collect();
    let perms = crate::choices::permutations(&(0..n).collect::<Vec<_>>());
    let total: usize = b.iter().map(|b| b.len()).product();
    for code in 0..total {
        if !k.turn() {
            continue;
        }
        let mut c = code;
        let items: Vec<Item> = (0..n)
            .map(|r| {
                let i = c % b[r].len();
                c /= b[r].len();
                // markers by position, so that all of them occur everywhere
                let f = b[r][i].iter().enumerate().map(|(j, f)| Field { array: (j + r + code) % 4 == 1, optional: (j + r + code) % 4 == 2, ..f.clone() });
                st(names[r], f.collect())
            })
            .collect();
        for p in &perms {
            let mut d: Vec<Item> = p.iter().map(|i| items[*i].clone()).collect();
            if leaves.contains(&"E") {
                d.insert(code % (n + 1), en("E", 1 + code % 32));
            }
            d.push(ex(names[n - 1]));
            k.put(&Schema(d));
        }
    }
}

pub fn each(rep: &Report, shard: usize, thorough: bool, prop: &str, f: &mut dyn FnMut(&Schema)) {
    let k = &mut Sink { rep, shard, i: 0, n: 0, f };

    if prop != "C05" {
        acyclic(k, 4, 2, &["uint8"]);
        k.end("acyclic, 4 structs, 2 fields, all orders");
        if thorough || prop == "C06" {
            acyclic(k, 3, 3, &["string", "E"]);
            k.end("acyclic, 3 structs and an enum, 3 fields, all orders");
        }
        if thorough {
            acyclic(k, 4, 2, &["float", "E"]);
            k.end("acyclic, 4 structs and an enum, 2 fields, all orders");
        }
    }

    // reference graphs: every graph of three structs with up to two fields each
    graphs(k, 3, 2, &["uint8", "E", "S0", "S1", "S2", "X"], &["S0", "S1", "S2"], true, true);
    k.end("graphs of 3 structs, 2 fields");
    // four structs, declared types only
    if thorough {
        graphs(k, 4, 2, &["S0", "S1", "S2", "S3", "X"], &["S0", "S3"], false, false);
        k.end("graphs of 4 structs, 2 fields");
        graphs(k, 5, 1, &["S0", "S1", "S2", "S3", "S4", "X", "int8"], &["S0", "S2"], false, true);
        k.end("graphs of 5 structs, 1 field");
        graphs(k, 2, 4, &["string", "E", "S0", "S1", "X"], &["S0", "S1"], true, true);
        k.end("graphs of 2 structs, 4 fields");
    } else {
        graphs(k, 4, 2, &["S0", "S1", "S2", "S3"], &["S0"], false, false);
        k.end("graphs of 4 structs, 2 fields");
        graphs(k, 5, 1, &["S0", "S1", "S2", "S3", "S4"], &["S2"], false, true);
        k.end("graphs of 5 structs, 1 field");
        graphs(k, 2, 3, &["string", "E", "S0", "S1", "X"], &["S0", "S1"], true, true);
        k.end("graphs of 2 structs, 3 fields");
    }
    // array and optional markers and equal field names
    let mut kinds = Vec::new();
    for t in ["uint8", "E", "S0", "S1", "X"].iter() {
        for (a, o) in [(false, false), (true, false), (false, true), (true, true)].iter() {
            kinds.push((*t, *a, *o));
        }
    }
    let two = bodies(2, &kinds, true);
    tuples(k, 2, &two, if thorough { &["S0", "S1"] } else { &["S1"] }, true, true);
    k.end("markers and equal names in 2 structs");
    // three or four fields in one struct, next to another one of every shape
    let three = bodies(3, &kinds, true);
    let others: Vec<Vec<Field>> = vec![
        vec![],
        vec![field("a", "uint8", false, false)],
        vec![field("a", "E", false, false), field("b", "float", true, false)],
        vec![field("a", "X", false, false)],
        vec![field("a", "S0", false, true)],
        vec![field("a", "S1", true, false)],
    ];
    for b in &three {
        if !k.turn() {
            continue;
        }
        for (i, o) in others.iter().enumerate() {
            for swap in 0..2 {
                let mut d = vec![st("S0", b.clone()), en("E", 1 + i), st("S1", o.clone())];
                if swap == 1 {
                    d.reverse();
                }
                d.insert(1, ex(if i % 2 == 0 { "S0" } else { "S1" }));
                k.put(&Schema(d));
            }
        }
    }
    k.end("3 fields with markers and equal names");
    // every built-in type with every marker, next to every other
    for t in crate::schema::BUILTINS.iter() {
        for u in crate::schema::BUILTINS.iter().chain(["E", "S1"].iter()) {
            for m in 0..9 {
                if !k.turn() {
                    continue;
                }
                let f = |n, t, m| field(n, t, m == 1, m == 2);
                k.put(&Schema(vec![
                    st("S0", vec![f("a", t, m % 3), f("b", u, m / 3), f("c", t, m / 3)]),
                    en("E", 9),
                    st("S1", vec![f("x", t, m / 3)]),
                    ex("S0"),
                ]));
            }
        }
    }
    k.end("built-in types");
    // enums: number of variants, equal variants, used or not
    for n in 0..=(if thorough { 70 } else { 40 }) {
        for i in 0..=n {
            for j in i..=n {
                if !k.turn() || (i == n) != (j == n) || (i == j && i < n) {
                    continue;
                }
                // variants i and j are equal; i == j == n stands for all distinct
                let mut v: Vec<String> = (0..n).map(|x| format!("V{}", x)).collect();
                if i < j {
                    v[j] = v[i].clone();
                }
                for used in 0..3 {
                    let mut d = vec![Item::Decl("E".into(), Body::Enum(v.clone())), ex("S0")];
                    let t = ["uint8", "E", "S1"][used];
                    d.push(st("S0", vec![field("e", t, false, used == 1)]));
                    if used == 2 {
                        d.push(st("S1", vec![field("e", "E", true, false)]));
                    }
                    k.put(&Schema(d));
                }
            }
        }
    }
    // larger enums, with and without equal variants
    for n in (41..=300).chain([301, 320, 383, 384, 511, 512, 513, 514, 544, 545, 767, 768, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 65568, 65569]) {
        for used in 0..2 {
            if !k.turn() || n > 2000 && !thorough && (n != 65537 || used == 0) {
                continue;
            }
            for equal in 0..(if n > 2000 { 1 } else { 3 }) {
                let mut v: Vec<String> = (0..n).map(|x| format!("V{}", x)).collect();
                match equal {
                    0 => {}
                    1 => v[n - 1] = v[0].clone(),
                    _ => v[n / 2] = v[n / 2 - 1].clone(),
                }
                k.put(&Schema(vec![Item::Decl("E".into(), Body::Enum(v)), ex("S0"), st("S0", vec![field("e", ["uint8", "E"][used], used == 1, false)])]));
            }
        }
    }
    k.end("enums");
    // exports
    for count in 0..=3u32 {
        let targets = ["S0", "S1", "E", "X", "uint8", "string", "S", "s0", ""];
        for c in 0..targets.len().pow(count) {
            if !k.turn() {
                continue;
            }
            for place in 0..3 {
                for e in 0..3 {
                    let mut d = vec![
                        st("S0", vec![field("a", ["uint8", "S1", "X"][e], false, false)]),
                        en("E", 2),
                        st("S1", vec![field("a", "E", false, false)]),
                    ];
                    let mut c = c;
                    for _ in 0..count {
                        let at = [0, d.len() / 2, d.len()][place];
                        d.insert(at, ex(targets[c % targets.len()]));
                        c /= targets.len();
                    }
                    k.put(&Schema(d));
                }
            }
        }
    }
    k.end("exports");
    // equal declarations: any two of four declarations, each a struct or an enum
    for i in 0..4 {
        for j in i + 1..4 {
            for kind in 0..3u32.pow(4) {
                for used in 0..2 {
                    if !k.turn() {
                        continue;
                    }
                    let mut d = Vec::new();
                    for p in 0..4u32 {
                        let name = format!("D{}", if p == j { i } else { p });
                        d.push(match (kind / 3u32.pow(p)) % 3 {
                            0 => st(&name, vec![field("a", "uint8", false, false)]),
                            1 => en(&name, 1 + p as usize),
                            _ => st(&name, vec![field("a", if used == 1 { "D3" } else { "D0" }, false, false)]),
                        });
                    }
                    for e in ["D0", "D1", "D2", "D3"].iter() {
                        for last in 0..2 {
                            let mut d = d.clone();
                            d.insert(if last == 1 { d.len() } else { 0 }, ex(e));
                            k.put(&Schema(d));
                        }
                    }
                }
            }
        }
    }
    k.end("equal declarations");
    // one defect at every place of a large struct, enum or schema
    let top = if thorough { 40 } else { 20 };
    for n in 1..=top {
        for i in 0..n {
            if !k.turn() {
                continue;
            }
            let types = ["uint8", "E", "T1", "string", "T2", "float", "int32"];
            let base = |r: usize| -> Vec<Field> {
                (0..n).map(|j| field(&format!("g{}", j), types[(j + r) % types.len()], (j + r) % 4 == 1, (j + r) % 4 == 3)).collect()
            };
            for r in 0..3 {
                let mut all = vec![base(r)];
                for j in i + 1..n {
                    // field j is called like field i
                    let mut f = base(r);
                    f[j].name = f[i].name.clone();
                    all.push(f);
                }
                for t in ["X", "T0", "e", "T", "T11", "uint", "Uint8", ""].iter() {
                    let mut f = base(r);
                    f[i].ty = t.to_string();
                    all.push(f);
                }
                let mut f = base(r);
                f[i].array = true;
                f[i].optional = true;
                all.push(f);
                for f in all {
                    let inner = if r == 2 { "T2" } else { "E" };
                    let mut d = vec![
                        st("T0", f),
                        st("T1", vec![field("z", inner, r == 1, false)]),
                        st("T2", vec![field("z", "E", false, r == 1)]),
                        en("E", 1 + (n + i) % 32),
                    ];
                    d.rotate_left((n + r) % 4);
                    d.insert(i % 5, ex(if r == 1 && i % 2 == 0 { "T1" } else { "T0" }));
                    k.put(&Schema(d));
                }
            }
            // declaration j is called like declaration i; every one uses an earlier one
            for j in i..n {
                for kinds in 0..3 {
                    let name = |x: usize| format!("D{}", if x == j { i } else { x });
                    let mut d: Vec<Item> = (0..n)
                        .map(|x| match (x + kinds) % 3 {
                            0 => en(&name(x), 1 + x),
                            1 => st(&name(x), vec![field("a", "uint8", false, false)]),
                            _ => st(&name(x), vec![field("a", "int8", false, false), field("b", &format!("D{}", x.saturating_sub(1 + i % 3)), x % 2 == 0, false)]),
                        })
                        .collect();
                    d.insert((i + j) % (n + 1), ex("Top"));
                    d.insert((i * j) % (n + 1), st("Top", vec![field("f", "string", false, false)]));
                    k.put(&Schema(d));
                }
            }
        }
    }
    k.end("one defect at every place");
    // two equal names far from each other, in a long schema, struct or enum
    for n in (21..=if thorough { 140 } else { 70 }).chain([72, 80, 96, 99, 100, 101, 120, 127, 128, 129, 150, 192, 200, 255, 256, 257, 300, 400, 512, 513, 600, 1000, 1024, 1025]) {
        if !k.turn() {
            continue;
        }
        let mut pairs = vec![(0, n - 1), (0, n / 2), (n / 2, n - 1), (1, n - 2), (n / 3, n / 3 + 1), (n / 2 - 1, n / 2), (n - 2, n - 1), (0, 1), (n / 4, 3 * n / 4), (0, 0)];
        if n <= 300 {
            pairs.extend((1..n).step_by(1 + n / 40).flat_map(|d| vec![(0, d), (n - 1 - d, n - 1)]));
        }
        for (i, j) in pairs {
            let name = |x: usize| format!("D{}", if x == j { i } else { x });
            for kind in 0..2 {
                let mut d: Vec<Item> = (0..n)
                    .map(|x| if (x + kind) % 2 == 0 { en(&name(x), 1 + x % 32) } else { st(&name(x), vec![field("a", "uint8", x % 4 == 1, false)]) })
                    .collect();
                d.insert((i + j) % (n + 1), ex("Top"));
                d.insert(if kind == 0 { n } else { 0 }, st("Top", vec![field("f", &name(n / 3), false, false)]));
                k.put(&Schema(d));
            }
            // fields
            let t = ["uint8", "E", "S", "string"];
            let f: Vec<Field> = (0..n).map(|x| field(&name(x), t[(x + n) % 4], x % 5 == 1, x % 5 == 3)).collect();
            k.put(&Schema(vec![ex("Top"), st("Top", f.clone()), en("E", 4), st("S", vec![])]));
            k.put(&Schema(vec![en("E", 4), st("S", vec![]), st("In", f), st("Top", vec![field("a", "In", true, false)]), ex("Top")]));
        }
        // a second export far from the first
        for at in [0, 1, n / 2, n - 1, n].iter() {
            for other in [0, 1, n / 2, n - 1, n].iter() {
                let mut d: Vec<Item> = (0..n).map(|x| st(&format!("D{}", x), vec![field("a", "uint8", false, false)])).collect();
                d.insert(*at, ex("D1"));
                d.insert(*other, ex(if at == other { "D1" } else { "D2" }));
                k.put(&Schema(d));
            }
        }
    }
    k.end("far apart");
    // many fields of one type, and one defect among them
    for n in 1..=(if thorough { 70 } else { 40 }) {
        for (ti, t) in ["uint8", "string", "E", "S", "T", "X"].iter().enumerate() {
            if !k.turn() {
                continue;
            }
            for m in 0..3 {
                let base: Vec<Field> = (0..n).map(|x| field(&format!("g{}", x), t, m == 1, m == 2)).collect();
                let mut put = |f: Vec<Field>| {
                    for inner in 0..2 {
                        let mut d = vec![st("T", if inner == 0 { f.clone() } else { vec![field("u", "U", n % 2 == 0, false)] }), en("E", 3), st("S", vec![field("q", "E", false, false)]), ex("T")];
                        if inner == 1 {
                            d.insert(n % 4, st("U", f.clone()));
                        }
                        d.rotate_left((n + ti) % 4);
                        k.put(&Schema(d));
                    }
                };
                put(base.clone());
                for i in 0..n {
                    let mut f = base.clone();
                    f[i].array = true;
                    f[i].optional = true;
                    put(f);
                    let mut f = base.clone();
                    f[i].ty = ["X", "x", "T0", "e"][i % 4].into();
                    put(f);
                    let mut f = base.clone();
                    f[i].name = format!("g{}", (i + 1 + n / 2) % n);
                    put(f);
                }
            }
        }
    }
    k.end("many fields of one type");
    // any kind of name at each place of some schemas
    let styles = [
        "_", "__", "_a", "_A", "__a", "a_", "A_", "a", "A", "z", "Z", "a1", "A1", "a_1", "_1", "_0", "x0", "X9", "aB", "Ab", "AB", "ab", "a_b", "A_B", "T", "t", "Test", "Base", "base", "Abstract", "Private", "Internal",
        "Hidden", "private", "Unused", "unused", "Dead", "Type", "type", "Struct", "Enum", "structA", "enumA", "exportA", "Export", "Uint8", "uint8_", "String", "Float", "stringy", "Object", "Array", "Void", "None", "Null",
        "Self", "self", "id", "Id", "ID", "kind", "Kind", "Node", "List", "Option", "Any", "any", "toString", "constructor", "prototype", "__proto__", "name", "length", "root", "Root", "main", "Main", "default", "Default",
        "Packet", "packet", "Message", "Header", "Reader", "Writer", "reader", "writer", "output", "data", "buffer",
    ];
    for n in styles.iter() {
        for place in 0..6usize {
            if !k.turn() {
                continue;
            }
            let name = |i: usize| if i == place { n.to_string() } else { format!("N{}", i) };
            for graph in 0..64usize {
                // types 0 to 3 are structs, 4 is an enum, 5 another; each bit is a use
                let one = |f: &str, t: usize| field(f, &name(t), (t + graph) % 4 == 1, (t + graph) % 4 == 2);
                let mut d = vec![
                    st(&name(0), vec![one("f", 1), field("g", "uint8", false, false)].into_iter().chain((graph & 1 != 0).then(|| one("h", 2))).collect()),
                    st(&name(1), vec![one("f", if graph & 2 != 0 { 2 } else { 3 })].into_iter().chain((graph & 4 != 0).then(|| one("h", 4))).collect()),
                    st(&name(2), vec![field("k", "string", false, false)].into_iter().chain((graph & 8 != 0).then(|| one("h", 3))).collect()),
                    st(&name(3), vec![one("f", 4)].into_iter().chain((graph & 16 != 0).then(|| one(n, 5))).collect()),
                    Item::Decl(name(4), Body::Enum(vec!["A".into(), n.to_string(), "B_".into()].into_iter().take(2 + graph % 2).collect())),
                    en(&name(5), 3),
                ];
                if graph & 32 != 0 {
                    d.reverse();
                }
                d.insert(graph % 7, ex(&name(0)));
                k.put(&Schema(d.clone()));
                // and with a defect
                if graph % 8 < 4 {
                    let at = d.iter().position(|i| matches!(i, Item::Decl(m, _) if *m == name(graph % 4))).unwrap();
                    let wrong = match graph / 8 % 8 {
                        0 => vec![field("f", n, true, true)],
                        1 => vec![field(n, "uint8", false, false), field(n, "uint8", false, false)],
                        2 => vec![field("f", &format!("{}_", n), false, false)],
                        3 => vec![field("f", &name(graph % 4), false, false)],
                        4 => vec![field(n, "string", true, true)],
                        5 => vec![field("f", &name(0), true, false)],
                        6 => vec![field(n, &format!("_{}", n), false, true)],
                        _ => vec![field("a", "E0", false, false), field(n, "uint8", false, false)],
                    };
                    d[at] = st(&name(graph % 4), wrong);
                    k.put(&Schema(d));
                }
            }
        }
    }
    k.end("kinds of names");
    // words of this and other languages at each place, alone in their schema
    for (i, w) in crate::texts::words(&[]).iter().enumerate() {
        if !k.turn() {
            continue;
        }
        let w = w.as_str();
        let m = |n: usize| ((i + n) % 3 == 1, (i + n) % 3 == 2);
        let at = |n: usize, f: &str, t: &str| field(f, t, m(n).0, m(n).1);
        let own = |v: &[&str]| Item::Decl(w.into(), Body::Enum(v.iter().map(|x| x.to_string()).collect()));
        for d in vec![
            vec![st(w, vec![field("q", "uint8", false, false)]), st("T0", vec![at(0, "a", w), at(1, "b", w)]), ex("T0")],
            vec![st("T0", vec![at(0, "a", w), at(1, w, w)]), ex("T0"), own(&["A0", w])],
            vec![ex(w), st(w, vec![at(0, "a", "E0"), at(1, w, "string")]), en("E0", 3)],
            vec![st("T0", vec![at(0, w, "S0"), at(1, "b", "int16")]), st("S0", vec![at(2, w, "float")]), ex("T0")],
            vec![st("T0", vec![at(0, "a", w)]), ex("T0")],
            vec![st("T0", vec![at(0, "a", w), at(1, "b", w)]), st(w, vec![at(2, "c", w)]), ex("T0")],
            vec![st(w, vec![at(0, "a", "T0")]), ex(w), st("T0", vec![field(w, w, false, false)])],
            vec![st("T0", vec![at(0, "a", w)]), own(&[w, "A0", w]), ex("T0")],
            vec![st("T0", vec![at(0, "a", w)]), own(&[]), ex("T0")],
            vec![own(&["A0"]), ex(w)],
            vec![st("T0", vec![at(0, "a", "uint8")]), ex(w)],
            vec![st("T0", vec![at(0, w, "uint8"), at(1, w, "uint8")]), ex("T0")],
            vec![st("T0", vec![field(w, "uint8", true, true)]), ex("T0")],
            vec![st(w, vec![at(0, "a", "uint8")]), st(w, vec![at(0, "a", "uint8")]), ex(w)],
            vec![st(w, vec![at(0, "a", "uint8")]), ex(w), ex(w)],
            vec![st(w, vec![at(0, "a", "uint8")])],
        ] {
            k.put(&Schema(d));
        }
    }
    k.end("words");
    // what is nearly the name of a type is not
    let any: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect();
    for t in ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string", "Abc", "e1", "a_B"].iter() {
        for at in 0..=t.len() {
            if !k.turn() {
                continue;
            }
            let mut near: Vec<String> = any.iter().flat_map(|c| [format!("{}{}{}", &t[..at], c, &t[at..]), format!("{}{}{}", &t[..at], c, t.get(at + 1..).unwrap_or("_"))]).collect();
            near.push(t[..at].into());
            near.push(t[at..].into());
            near.push(format!("{}{}", &t[..at], t.get(at + 1..).unwrap_or("")));
            near.push(format!("{}{}", t, t));
            near.push(t.repeat(2 + at));
            near.retain(|x| x != t && !x.is_empty());
            for (i, x) in near.iter().enumerate() {
                let d = |fields: Vec<Field>, e: &str| Schema(vec![st("Abc", vec![field("f", "a_B", false, false)]), en("e1", 2), en("a_B", 2), st("T0", fields), ex(e)]);
                k.put(&d(vec![field("f", "uint8", false, false), field("g", x, i % 3 == 1, i % 3 == 2)], "T0"));
                k.put(&d(vec![field("f", t, false, false), field("g", x, i % 3 == 2, i % 3 == 0), field("h", "Abc", false, false)], "T0"));
                if i % 8 == 0 {
                    k.put(&d(vec![field("f", t, false, false)], x));
                }
            }
        }
    }
    k.end("nearly declared names");
    // enums of every size whose variants all have names of one length, or whose own name has
    for n in 1..=33usize {
        if !k.turn() {
            continue;
        }
        for len in (2..=40).chain([63, 64, 65, 100, 128, 255, 256, 257, 1000]) {
            for fill in ["a", "Z", "_"].iter() {
                let v: Vec<String> = (0..n).map(|i| format!("{}{}", fill.repeat(len - 2 + (i < 10) as usize), (b'A' + (i % 10) as u8) as char) + &if i < 10 { String::new() } else { (i / 10).to_string() }).collect();
                k.put(&Schema(vec![Item::Decl("E0".into(), Body::Enum(v)), st("T0", vec![field("e", "E0", n % 3 == 0, n % 3 == 1), field("f", "uint8", false, false)]), ex("T0")]));
            }
            let name = "Ab_9".repeat(len)[..len].to_string();
            k.put(&Schema(vec![st("T0", vec![field("e", &name, len % 3 == 0, len % 3 == 1), field("f", "uint8", false, false)]), ex("T0"), en(&name, n)]));
        }
    }
    k.end("enums with names of every length");
    // case and prefixes: names which differ only a little are different names
    let close = ["a", "A", "aa", "a_", "_a", "a1", "uint", "uint88", "Uint8", "strin", "strings"];
    for x in close.iter() {
        for y in close.iter() {
            if !k.turn() {
                continue;
            }
            k.put(&Schema(vec![st(x, vec![field(x, "uint8", false, false), field(y, y, false, false)]), ex(x)]));
            k.put(&Schema(vec![
                st(x, vec![field(x, y, false, false), field(y, "uint8", true, false)]),
                Item::Decl(y.to_string(), Body::Enum(vec![x.to_string(), y.to_string(), "q".into()])),
                ex(x),
            ]));
            k.put(&Schema(vec![en(y, 1), st("T", vec![field("f", x, false, false)]), ex("T")]));
        }
    }
    k.end("similar names");
    // names of any length, which are alike up to their last or first character
    for n in [2usize, 3, 8, 15, 16, 17, 20, 24, 30, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 81, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65536] {
        for fill in ["a", "_", "Z9", "x_"].iter() {
            for first in 0..2 {
                if !k.turn() {
                    continue;
                }
                let name = |c: &str| {
                    let rest: String = fill.chars().cycle().take(n - 1).collect();
                    if first == 1 { format!("{}{}", c, rest) } else { rest + c }
                };
                let (p, q, r) = (name("p"), name("q"), name("r"));
                let one = |f: &str, t: &str| vec![field(f, t, false, false)];
                let variants = |v: &[&String]| Body::Enum(v.iter().map(|v| v.to_string()).collect());
                // nothing wrong
                let ok = vec![
                    st(&p, vec![field(&p, &q, false, false), field(&q, &r, true, false), field(&r, &p[..0], false, false)]),
                    st(&q, vec![field(&r, "uint8", false, true), field(&q, &r, false, false)]),
                    Item::Decl(r.clone(), variants(&[&p, &q, &r])),
                ];
                let mut good = ok.clone();
                good[0] = st(&p, vec![field(&p, &q, false, false), field(&q, &r, true, false), field(&r, "string", false, false)]);
                for e in [&p, &q, &r, &name("s")] {
                    let mut d = good.clone();
                    d.push(ex(e));
                    k.put(&Schema(d));
                }
                // one defect of each kind
                let mut bad = vec![
                    vec![st(&p, one("f", &q)), st(&r, one("f", "uint8")), ex(&p)],
                    vec![st(&p, one("f", &q)), st(&q, one("f", &r)), st(&r, one("f", &p)), ex(&p)],
                    vec![st(&p, one("f", &q)), st(&q, one("f", &r)), st(&r, one("f", &q)), ex(&p)],
                    vec![st(&p, one("f", &p)), ex(&p)],
                    vec![st(&p, vec![field(&q, "uint8", false, false), field(&r, "uint8", false, false), field(&q, "uint8", false, false)]), ex(&p)],
                    vec![st(&p, vec![field(&q, "uint8", true, true), field(&r, "uint8", true, false)]), ex(&p)],
                    vec![st(&p, one("f", &q)), Item::Decl(q.clone(), variants(&[&p, &r, &p])), ex(&p)],
                    vec![st(&p, one("f", &q)), Item::Decl(q.clone(), variants(&[])), ex(&p)],
                    vec![st(&p, one("f", &q)), en(&q, 33), ex(&p)],
                    vec![st(&p, one("f", &q)), en(&q, 3), st(&q, vec![]), ex(&p)],
                    vec![st(&p, vec![]), st(&q, vec![]), ex(&p), ex(&q)],
                    vec![st(&p, vec![]), st(&q, vec![])],
                ];
                bad.push(ok.into_iter().chain(std::iter::once(ex(&p))).collect());
                for d in bad {
                    k.put(&Schema(d));
                }
            }
        }
    }
    k.end("long names");
    // size: chains, cycles behind chains, fans, wide structs, many declarations
    let top = if thorough { 120 } else { 60 };
    for n in (1..=top).chain([64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300].iter().copied().filter(|n| *n > top)) {
        if !k.turn() {
            continue;
        }
        let name = |i: usize| format!("T{}", i);
        for rev in 0..2 {
            let fix = |mut d: Vec<Item>, e: &str| {
                if rev == 1 {
                    d.reverse();
                }
                d.push(ex(e));
                Schema(d)
            };
            // chain 0 -> 1 -> ... -> n-1, whose end is ok, missing, an enum, or goes back to any earlier one
            for end in 0..(n + 3).min(14) {
                let last = match end {
                    0 => "uint8".to_string(),
                    1 => "X".to_string(),
                    2 => "E".to_string(),
                    x if n + 3 <= 14 => name(x - 3),
                    x => name([0, 1, 2, n / 3, n / 2, n - 3, n - 2, n - 1, n / 4, n / 5, 3][x - 3] % n),
                };
                let d: Vec<Item> = (0..n)
                    .map(|i| {
                        let t = if i + 1 < n { name(i + 1) } else { last.clone() };
                        st(&name(i), vec![field("a", "uint8", false, false), field("b", &t, i % 3 == 1, i % 3 == 2), field("c", "int8", false, false)])
                    })
                    .chain(std::iter::once(en("E", 2)))
                    .collect();
                k.put(&fix(d.clone(), "T0"));
                k.put(&fix(d, &name(n / 2)));
            }
            // a ladder: everyone uses the next two
            let d: Vec<Item> = (0..n)
                .map(|i| {
                    let t = |j: usize| if j < n { name(j) } else { "float".into() };
                    st(&name(i), vec![field("a", &t(i + 1), true, false), field("b", "string", false, true), field("c", &t(i + 2), false, false)])
                })
                .collect();
            k.put(&fix(d, "T0"));
            // a fan: one uses n others, with one of them missing or equal to the user
            for bad in 0..3 {
                let mut d: Vec<Item> = (1..=n)
                    .map(|i| if i % 2 == 0 { en(&name(i), i.min(32)) } else { st(&name(i), vec![field("q", "uint16", i % 4 == 1, false)]) })
                    .collect();
                let f = (1..=n)
                    .map(|i| {
                        let t = match bad {
                            1 if i == n => "X".into(),
                            2 if i == n / 2 + 1 => "T0".into(),
                            _ => name(i),
                        };
                        field(&format!("g{}", n - i), &t, i % 3 == 0, i % 3 == 1)
                    })
                    .collect();
                d.insert(n / 2, st("T0", f));
                k.put(&fix(d, "T0"));
            }
            // wide: n fields, the last equal to each earlier one
            for dup in 0..=n.min(12) {
                let at = if n <= 12 { dup } else { dup * n / 12 };
                let mut f: Vec<Field> = (0..n)
                    .map(|i| field(&format!("g{}", i), ["uint8", "E", "T1", "string", "float"][(i + n) % 5], i % 4 == 1, i % 4 == 3))
                    .collect();
                if at < n {
                    f.push(field(&format!("g{}", at), "uint8", false, false));
                }
                k.put(&fix(vec![st("T0", f), st("T1", vec![field("z", "E", false, false)]), en("E", 32)], "T0"));
            }
        }
    }
    k.end("scaled");
    // chains which are longer still
    for n in [400usize, 499, 500, 501, 511, 512, 513, 600, 701, 800, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049] {
        for (end, last) in ["uint8", "X", "E", "T0", "T1", "T7"].iter().enumerate() {
            if !k.turn() || !thorough && ![513, 701, 1001, 1025].contains(&n) {
                continue;
            }
            let name = |i: usize| format!("T{}", i);
            let mut d: Vec<Item> = (0..n)
                .map(|i| st(&name(i), vec![field("b", &if i + 1 < n { name(i + 1) } else { last.to_string() }, i % 3 == 1, i % 3 == 2)]))
                .chain(std::iter::once(en("E", 2)))
                .collect();
            if end % 2 == 1 {
                d.reverse();
            }
            d.push(ex("T0"));
            k.put(&Schema(d));
        }
    }
    k.end("long chains");
    // names which are the same but for a beginning or an end
    let (short, words) = affixes();
    for (i, part) in short.chunks(31).chain(words.chunks(31)).enumerate() {
        if !k.turn() {
            continue;
        }
        for base in ["Abc", "x", "a_b"].iter() {
            for front in 0..2 {
                let mut v: Vec<String> = part
                    .iter()
                    .filter(|a| front == 0 || !a.starts_with(|c: char| c.is_ascii_digit()))
                    .map(|a| if front == 1 { format!("{}{}", a, base) } else { format!("{}{}", base, a) })
                    .collect();
                v.insert(0, base.to_string());
                for back in 0..2 {
                    if back == 1 {
                        v.reverse();
                    }
                    let e = Item::Decl("E0".into(), Body::Enum(v.clone()));
                    // as variants, as fields, as types
                    k.put(&Schema(vec![e, st("T0", vec![field("e", "E0", i % 3 == 1, i % 3 == 2)]), ex("T0")]));
                    let t = ["uint8", "string", "E0", "S0"];
                    let f: Vec<Field> = v.iter().enumerate().map(|(j, n)| field(n, t[(i + j) % 4], j % 3 == 1, j % 3 == 2)).collect();
                    k.put(&Schema(vec![st("T0", f), en("E0", 2), st("S0", vec![]), ex("T0")]));
                    let mut d: Vec<Item> =
                        v.iter().enumerate().map(|(j, n)| if j % 2 == 0 { en(n, 1 + j) } else { st(n, vec![field("q", &v[j - 1], j % 4 == 1, j % 4 == 3)]) }).collect();
                    d.push(st("T0", v.iter().enumerate().map(|(j, n)| field(&format!("g{}", j), n, j % 3 == 1, j % 3 == 2)).collect()));
                    d.push(ex("T0"));
                    k.put(&Schema(d));
                }
            }
        }
    }
    k.end("beginnings and ends of names");
    // a word as the name of a field of each type with each marker, at each place of a struct
    for w in crate::texts::words(&[]).iter().filter(|_| prop != "C05") {
        if !k.turn() {
            continue;
        }
        let mut d = vec![en("E0", 3), st("S0", vec![field(w, "uint8", false, false)])];
        let mut f = Vec::new();
        for t in crate::schema::BUILTINS.iter().chain(["E0", "S0"].iter()) {
            for m in 0..3 {
                for at in 0..3 {
                    let mut g: Vec<Field> = ["f", "g", "h"].iter().enumerate().map(|(i, n)| field(n, ["uint8", "string", "int16"][i], i == 1, i == 2 && m != 0)).collect();
                    g[at] = field(w, t, m == 1, m == 2);
                    let name = format!("S{}", d.len());
                    f.push(field(&format!("h{}", d.len()), &name, false, false));
                    d.push(st(&name, g));
                }
            }
        }
        d.push(st("T0", f));
        d.push(ex("T0"));
        k.put(&Schema(d));
    }
    k.end("words as names of fields of each type");
    coincidences(k, thorough);
    k.end("names which are equal by chance");
    // the same marker everywhere, and any marker at each of a few fields
    for (a, o) in [(true, false), (false, true)].iter() {
        let kinds: Vec<(&str, bool, bool)> = ["S0", "S1", "S2", "E", "int8"].iter().map(|t| (*t, *a, *o)).collect();
        let b = bodies(2, &kinds, false);
        tuples(k, 3, &b, &["S0"], true, true);
    }
    for n in 3..=4 {
        let kinds: Vec<(&str, bool, bool)> =
            ["S0", "S1", "S2", "S3"][..n].iter().flat_map(|t| [(*t, false, false), (*t, true, false), (*t, false, true)]).chain([("E", false, true)]).collect();
        let b = bodies(1, &kinds, false);
        tuples(k, n, &b, &["S0"], true, n == 3);
    }
    k.end("graphs with markers");
    let types = ["uint8", "E0", "S0", "string", "int32", "S1"];
    for len in 4..=if thorough { 8usize } else { 6 } {
        for code in 0..3usize.pow(len as u32) {
            if !k.turn() {
                continue;
            }
            for turn in 0..if thorough { 6 } else { 3 } {
                let f: Vec<Field> = (0..len)
                    .map(|i| {
                        let m = code / 3usize.pow(i as u32) % 3;
                        field(&format!("f{}", i), types[if turn == 2 { 0 } else { (i + turn) % 6 }], m == 1, m == 2)
                    })
                    .collect();
                k.put(&Schema(vec![st("T0", f), st("S0", vec![field("a", "S1", turn == 1, false)]), en("E0", 2), st("S1", vec![field("q", "float", false, turn == 0)]), ex("T0")]));
            }
        }
    }
    k.end("all markers of some fields");
    // declarations with the same content
    for n in 1..=40usize {
        for form in 0..6 {
            if !k.turn() {
                continue;
            }
            let v: Vec<String> = (0..n).map(|i| format!("V{}", i)).collect();
            let mut w = v.clone();
            match form % 3 {
                0 => (),
                1 => w.reverse(),
                _ => w.truncate(n / 2 + 1),
            }
            let mut d = if form < 3 {
                vec![Item::Decl("E0".into(), Body::Enum(v.clone())), Item::Decl("E1".into(), Body::Enum(w.clone())), Item::Decl("E2".into(), Body::Enum(v.clone()))]
            } else {
                let f = |v: &[String]| v.iter().enumerate().map(|(i, n)| field(n, ["uint8", "string", "E9"][i % 3], i % 3 == 1, i % 4 == 2)).collect();
                vec![st("E0", f(&v)), st("E1", f(&w)), st("E2", f(&v))]
            };
            d.push(st("T0", vec![field("a", "E2", false, false), field("b", "E0", true, false), field("c", "E1", false, true), field("d", "E0", false, false)]));
            d.push(en("E9", 9));
            d.push(ex("T0"));
            k.put(&Schema(d.clone()));
            d.reverse();
            k.put(&Schema(d));
        }
    }
    k.end("equal content");
    // what is wrong with the whole schema, however large it is
    for n in [5usize, 20, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025] {
        for form in 0..10 {
            if !k.turn() || n > 300 && !thorough && form % 2 == 1 {
                continue;
            }
            let mut d: Vec<Item> = (0..n).map(|i| if form % 3 == 0 { en(&format!("D{}", i), 1 + i % 3) } else { st(&format!("D{}", i), vec![field("a", "uint8", i % 3 == 1, i % 3 == 2)]) }).collect();
            match form {
                0 | 1 => (),
                2 => d.extend([ex("D1"), ex("D2")]),
                3 => d.push(ex("D1")),
                4 => d.push(ex("D")),
                5 => {
                    d.insert(0, ex("D1"));
                    d.push(ex("D1"));
                }
                6 => d.extend([st("T0", vec![field("a", "D", false, false)]), ex("T0")]),
                7 => d.extend([st("T0", vec![field("a", "T0", true, false)]), ex("T0")]),
                8 => d.extend([st("T0", vec![field("a", "D1", true, true)]), ex("T0")]),
                _ => d.extend([en("T0", 0), ex("D1")]),
            }
            k.put(&Schema(d));
        }
    }
    k.end("defects of large schemas");
}

/// Schemas in which one or two names are replaced by others of the same schema
fn coincidences(k: &mut Sink, thorough: bool) {
    let variants = |v: &[&str]| Body::Enum(v.iter().map(|x| x.to_string()).collect());
    let bases = [
        vec![
            Item::Decl("E0".into(), variants(&["A", "B"])), Item::Decl("E1".into(), variants(&["C"])),
            st("S0", vec![field("a", "E0", false, false), field("b", "S1", false, true), field("c", "uint8", true, false)]),
            st("S1", vec![field("d", "E1", true, false), field("e", "string", false, false)]), ex("S0"),
        ],
        vec![
            st("S1", vec![field("d", "S2", false, true), field("e", "int16", false, false)]), ex("S0"), Item::Decl("E0".into(), variants(&["A", "B", "C"])),
            st("S2", vec![field("f", "E0", true, true)]), st("S0", vec![field("a", "S1", true, false), field("b", "S2", false, false)]),
        ],
        vec![ex("S1"), st("S0", vec![field("a", "float", false, true)]), st("S1", vec![field("b", "S0", true, true), field("c", "S0", false, false)]), en("E0", 2)],
    ];
    for base in bases.iter() {
        // the names at each place, and whether a keyword may be there
        fn places(d: &mut [Item]) -> Vec<(&mut String, bool)> {
            let mut out = Vec::new();
            for item in d {
                match item {
                    Item::Export(n) => out.push((n, true)),
                    Item::Decl(n, b) => {
                        out.push((n, false));
                        match b {
                            Body::Enum(v) => out.extend(v.iter_mut().map(|v| (v, false))),
                            Body::Struct(f) => f.iter_mut().for_each(|f| out.extend([(&mut f.name, false), (&mut f.ty, true)])),
                        }
                    }
                }
            }
            out
        }
        let mut d = base.clone();
        let mut names: Vec<String> = places(&mut d).into_iter().map(|(n, _)| n.clone()).collect();
        names.sort();
        names.dedup();
        let n = places(&mut d).len();
        let set = |d: &mut Vec<Item>, at: usize, name: &str| {
            let mut p = places(d);
            let ok = p[at].1 || !crate::schema::BUILTINS.contains(&name);
            if ok {
                *p[at].0 = name.to_string();
            }
            ok
        };
        for i in 0..n {
            for a in &names {
                let mut d = base.clone();
                if !set(&mut d, i, a) {
                    continue;
                }
                if k.turn() {
                    k.put(&Schema(d.clone()));
                }
                for j in i + 1..n {
                    for (y, b) in names.iter().enumerate() {
                        if !(thorough || (i + j + y) % 3 == 0 || a == b) || !k.turn() {
                            continue;
                        }
                        let mut e = d.clone();
                        if set(&mut e, j, b) {
                            k.put(&Schema(e));
                        }
                    }
                }
            }
        }
        // a declared name together with all its uses
        for a in &names {
            for b in &names {
                if !k.turn() || crate::schema::BUILTINS.contains(&b.as_str()) {
                    continue;
                }
                let mut d = base.clone();
                for (p, _) in places(&mut d) {
                    if p == a {
                        *p = b.clone();
                    }
                }
                k.put(&Schema(d));
            }
        }
    }
}
