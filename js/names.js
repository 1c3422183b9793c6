"use strict";
// C17: names are only names.
const space = require("./space");
const codec = require("./codec");
const { explore } = require("./choices");
const { f } = space;

const KEYWORDS = `break case catch class const continue debugger default delete do else export extends false finally for function
    if import in instanceof new null return super switch this throw true try typeof var void while with
    implements interface let package private protected public static yield await async of
    any boolean never number object string symbol undefined unknown bigint
    abstract as asserts constructor declare get set infer is keyof module namespace readonly require type from global unique override out accessor satisfies using
    arguments eval`.split(/\s+/);
const BUILTIN = `Object Array String Number Boolean Function Symbol Error Map Set Date Math JSON Promise Proxy Reflect RegExp BigInt
    ArrayBuffer DataView Uint8Array NaN Infinity globalThis console process exports global window Partial Record Readonly Pick Iterator`.split(/\s+/);
const PROPERTIES = `__proto__ prototype name length caller callee toString toJSON valueOf hasOwnProperty isPrototypeOf propertyIsEnumerable toLocaleString
    push pop map forEach apply call bind then create keys values entries`.split(/\s+/);
const GENERATED = `Reader Writer reader writer output data buffer read write finish failed packet
    output_x output_x_len output_x_item output_x_index output_x_temp this_x this_x_item this_x_index x_len x_item x_index x_temp
    len item index temp i read_uint8 write_uint8 read_string write_string`.split(/\s+/);
const SHAPES = `_ __ _a a_ a0 A z Z9 uint uint8_ uint8x uint64 int float32 double strings enums structs structure exported export_ Export
    aVeryLongIdentifierWhichGoesOnAndOnAndOnAndOnAndOnAndOnAndOnAndOnAndOnAndOn`.split(/\s+/);
const RESERVED = new Set("uint8 uint16 uint32 int8 int16 int32 float string enum struct".split(" "));
const NAMES = [...new Set([...KEYWORDS, ...BUILTIN, ...PROPERTIES, ...GENERATED, ...SHAPES])].filter((n) => n && !RESERVED.has(n));

/** Prototype-less, so that any name is a name */
function map(pairs) {
    const m = Object.create(null);
    for (const [k, v] of pairs) m[k] = v;
    return m;
}

const E = () => ["P", "Q", "R"];

/** Field kinds: what a field of that name is */
const KINDS = [["uint8", ""], ["uint16", "[]"], ["string", "?"], ["Inner", ""], ["Inner", "[]"], ["Inner", "?"], ["Kind", ""], ["Kind", "[]"]];

/** One name in one place; `at` names the place and the name */
function* single() {
    for (const n of NAMES) {
        const at = (place) => place + " " + n;
        const mk = (place, structs, enums, exp) => Object.assign(space.schema(map(structs), map(enums), exp, place), { at: at(place) });
        if (n !== "export") {
            yield mk("struct", [["Top", [f("a", n), f("b", n, "[]"), f("c", n, "?")]], [n, [f("q", "uint8")]]], [], "Top");
            yield mk("enum", [["Top", [f("a", n), f("b", n, "[]"), f("c", n, "?")]]], [[n, E()]], "Top");
            yield mk("exported", [["Inner", [f("q", "uint8")]], [n, [f("a", "Inner"), f("b", "Kind", "[]"), f("c", "string", "?")]]], [["Kind", E()]], n);
            yield mk("exported", [[n, []]], [], n);
        }
        yield mk("variant", [["Top", [f("a", "Kind"), f("b", "Kind", "[]")]]], [["Kind", ["P", n, "R"]]], "Top");
        yield mk("variant", [["Top", [f("a", "Kind")]]], [["Kind", [n]]], "Top");
        for (const [t, m] of KINDS) {
            const inner = t === "Inner" ? [["Inner", [f("q", "uint8")]]] : [];
            const enums = t === "Kind" ? [["Kind", E()]] : [];
            yield mk("field of the exported struct", [["Top", [f("k", "uint8"), f(n, t, m)]], ...inner], enums, "Top");
            for (const o of ["", "[]", "?"]) yield mk("field of another struct", [["Top", [f("o", "Outer", o)]], ["Outer", [f("k", "uint8"), f(n, t, m)]], ...inner], enums, "Top");
        }
    }
}

/** Names of any length, and names which are alike up to any length */
const LENGTHS = [...Array.from({ length: 65 }, (_, i) => i + 2), 79, 80, 81, 99, 100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096];
function* long() {
    const mk = (structs, enums, exp) => space.schema(map(structs), map(enums), exp, "long names");
    for (const n of LENGTHS) for (const fill of ["a", "_", "A9", "x_"]) {
        const name = (end) => fill.repeat(n).slice(0, n - 1) + end;
        const [p, q, r] = [name("p"), name("q"), name("1")];
        yield mk([["Top", [f(p, "uint8", "[]"), f(q, "string", "[]"), f(r, "Inner", "[]")]], ["Inner", [f(q, "string", "?"), f(p, "Kind", "[]")]]], [["Kind", E()]], "Top");
        yield mk([[p, [f("a", q, "[]"), f("b", r)]], [q, [f("a", r, "?"), f("b", "uint16", "[]")]]], [[r, E()]], p);
        yield mk([["Top", [f("a", "Kind"), f("b", "Kind", "[]")]]], [["Kind", [p, q, r, "other"]]], "Top");
        const kinds = (a, b) => [a, b, "int8", "string"].flatMap((t) => space.MODS.map((m) => [t, m])).map(([t, m], i) => f("f" + i, t, m));
        yield mk([[p, kinds("Inner", "Kind")], ["Inner", [f("g", "Kind", "?"), f("h", "float", "?")]]], [["Kind", E()]], p);
        yield mk([["Top", [...kinds("Inner", q), f(r, "Inner", "?")]], ["Inner", [f("g", q, "?"), f("h", r, "?"), f(p, "float", "?")]], [r, [f(q, "string", "?")]]], [[q, [p, r]]], "Top");
        yield mk([["Top", [f(p, "Mid"), f(q, "Mid", "[]"), f(r, "Mid", "?")]], ["Mid", [f(p, "Inner", "[]"), f(q, "Inner", "?")]], ["Inner", [f(r, "uint8", "[]")]]], [], "Top");
    }
}

/** Names which mean something elsewhere, or which somebody would choose */
const WORDS = `Float Float32 Float64 Float32Array Float64Array Int Int8 Int16 Int32 Int64 Int8Array Int32Array Uint Uint8 Uint16 Uint32 Uint64 U8 u8 u16 u32 i8 i32 f32 f64 usize
    Bool bool Char char str Str Text Void Null None Some Any Option Optional Vec List Dict HashMap HashSet Tuple Union union Struct Enum Type Types Field Value Key Id ID id _id uuid
    Packet Message Event Request Response Header Body Payload Frame Buffer Stream Socket Client Server Session User Player Entity Position Velocity Rotation Transform Color Vector Vec2 Vec3 Point
    Rect Node Edge Tree Graph State Status Kind Mode Flag Flags Level Item Items Entry Result Ok Err Exception Required Exclude Extract Omit NonNullable Parameters ReturnType InstanceType ThisType
    Uppercase Lowercase Awaited PropertyKey Iterable Generator AsyncIterator ReadonlyArray ReadonlyMap WeakMap WeakSet WeakRef Atomics Intl SharedArrayBuffer TypeError RangeError SyntaxError
    decodeURI encodeURI escape unescape isNaN isFinite parseInt parseFloat setTimeout module_ define document self top parent location history event status origin
    x y z w a b c n i j k v t s e f g h p q r count size total first last next prev start end begin begins left right up down min max sum old current
    code message reason error success ok failure timeout version major minor patch year month day hour minute second time date timestamp
    kind types fields variants value key tag label title text body head tail root leaf path file dir src dst url uri host port address ip mac token auth password
    get_x set_x is_x has_x to_x from_x on_x Getter Setter Static Private Public Protected Abstract Const Readonly_ async_ await_ yield_ of_ let_ var_ class_ this_ self_ super_
    self_type Self SELF True False TRUE FALSE NULL UNDEFINED nil NIL nan NAN inf INF Export Import Namespace Interface Class Function_ Enum_ Struct_
    read_ write_ Read Write READ WRITE reader_ writer_ Output Input input Data DATA temp_ item_ len_ index_ output_ buffer_ result results _output _this __this that
    toString_ valueOf_ constructor_ hasOwn proto _proto_ __proto prototype_ __defineGetter__ __lookupGetter__ inspect toStringTag iterator asyncIterator
    node_modules lib dist test tests spec mock debug DEBUG release build tmp cache lock
    Foo Bar Baz foo bar baz qux Test test1 test_1 Test_Test TestTest testTest TEST T1 T2 S0 E0 A1B2 camelCase snake_case PascalCase SCREAMING_CASE kebab_case x1 x01 x_1 _1 _0 __1 a__b a___b`
    .split(/\s+/).filter((n, i, l) => n && l.indexOf(n) === i && !NAMES.includes(n) && !RESERVED.has(n));
/** Usual beginnings and ends */
const AFFIXED = (() => {
    const ends = `Id ID _id Ids Count _count s es List Array Map Set Type Kind Enum Struct Flags Mask Name Key Value Index Len Length Size Data Info Msg Packet Ptr Ref Opt Arr Str Num Int Bool Float Time At On Of To
        By Fn Cb _t _s _e 0 1 2 9 10 255 _1 _0 Item Temp _item _len _temp _index`.split(/\s+/);
    const begins = "is has get set on to from my the new old max min num n m_ p_ s_ k_ I T E S k e on_ is_ did will should can un re pre non raw opt arr str".split(/\s+/);
    return [...["a", "player", "Foo"].flatMap((b) => ends.map((e) => b + e)), ...["X", "_x", "Foo"].flatMap((b) => begins.map((p) => p + b))];
})();
WORDS.push(...`hp mana health armor damage speed score points xp lives ammo weapon target owner team room lobby match round turn seed tick frame_id seq sequence ack nonce checksum crc hash signature salt
    width height depth radius angle yaw pitch roll scale offset limit page cursor sort filter query cmd command action op opcode method args params options config settings locale lang currency price
    amount quantity stock order cart email phone street city country zip latitude longitude lat lng lon alt created updated deleted active visible locked ready alive dead online away busy idle`
    .split(/\s+/).filter((n) => !WORDS.includes(n) && !NAMES.includes(n)));
const LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
const SHORT = [...LETTERS].flatMap((a) => [a, ...[...LETTERS, ..."0123456789"].map((b) => a + b)]).filter((n) => !NAMES.includes(n));

/** Every end of two characters which somebody may choose, numbers in every notation */
const ENDS = (() => {
    const upper = LETTERS.slice(26, 52), lower = LETTERS.slice(0, 26), digits = "0123456789";
    const all = (a, b) => [...a].flatMap((x) => [...b].map((y) => x + y));
    const two = [...all(upper + "_", digits), ...all(upper, upper), ...all(digits, digits), ...all("_", lower + upper), ...all(lower, digits), ...all(digits, lower + upper + "_")];
    return [...two.map((e) => "Foo" + e), ...two.filter((e) => !/^\d/.test(e)).map((e) => e + "Foo"), ...all(lower, "_").map((e) => e + "x")].filter((n) => !NAMES.includes(n) && !WORDS.includes(n) && !AFFIXED.includes(n));
})();

/** Every name of a few characters of each sort */
const formed = (most) => {
    const out = [];
    let level = ["a", "Z", "_"];
    for (let n = 2; n <= most; ++n) {
        level = level.flatMap((p) => [..."aZ_1"].map((c) => p + c));
        if (n > 2) out.push(...level);
    }
    return out;
};

/** Names which say another number than that of their place */
const NUMBERED = "Bit bit BIT_ Bit_ B b Flag flag FLAG_ Value value Val V v N n No Num Number Kind Type Option Mask Level Item Case Enum E e X x Pos Place Index Idx i I Id Code Const K k k_ Shift Lsb Msb Power Pow Exp Bit0 Bit1 _ __ _v L A a Variant".split(" ");

/** Many names in one schema: as struct or enum, as field, as variant; words also as the export */
function* packed(thorough) {
    const mk = (structs, enums, exp) => space.schema(map(structs), map(enums), exp, "names, many at once");
    const names = [...new Set([...WORDS, ...AFFIXED, ...ENDS, ...SHORT, ...formed(thorough ? 6 : 5)])];
    const M = space.MODS;
    for (let at = 0; at < names.length; at += 32) {
        const some = names.slice(at, at + 32);
        for (const parity of [0, 1]) {
            const structs = [], enums = [];
            some.forEach((n, i) => {
                if (i % 2 === parity) enums.push([n, ["P", "Q", "R"]]);
                else structs.push([n, [f("q", "uint8"), f("r", i > 0 ? some[i - 1] : "string", M[i % 3])].slice(0, i % 8 < 4 ? 2 : 1)]);
            });
            yield mk([["Top__", some.map((n, i) => f("f" + i, n, M[(i + parity) % 3]))], ...structs], enums, "Top__");
        }
        const kinds = [...KINDS, ["float", "[]"], ["int32", "?"], ["string", ""]];
        const fields = (r) => some.map((n, i) => { const [t, m] = kinds[(i + r) % kinds.length]; return f(n, t === "Inner" ? "Inner__" : t === "Kind" ? "Kind__" : t, m); });
        yield mk([["Top__", [...fields(0), f("k__", "Kind__"), f("i__", "Inner__")]], ["Inner__", [f("q", "uint8")]]], [["Kind__", some]], "Top__");
        yield mk([["Top__", [f("o", "Outer__", M[at / 32 % 3]), f("k", "Kind__", "[]")]], ["Outer__", [...fields(4), f("i__", "Inner__", "[]")]], ["Inner__", [f("q", "uint8")]]], [["Kind__", [...some].reverse()]], "Top__");
    }
    for (const n of [...WORDS, ...AFFIXED, ...ENDS, ...(thorough ? SHORT : [])]) yield mk([[n, [f("a__", "Inner__", "[]"), f(n, "Kind__", "?"), f("c__", "string")]], ["Inner__", [f(n, "uint8")]]], [["Kind__", [n, n + "_"]]], n);
}

/** Any names at the end of long paths of fields */
function* ends(thorough) {
    const mk = (structs, enums, exp) => space.schema(map(structs), map(enums), exp, "ends of paths");
    const names = [...new Set([...NAMES, ...PATHS])].filter((n) => n !== "__proto__");
    for (const levels of thorough ? [3, 4, 5, 6] : [3, 5]) for (const long of ["p", "aPathOfLongNames"]) for (const [k, [t, m]] of KINDS.entries()) {
        for (let at = 0; at < names.length; at += 24) {
            const M = (i) => space.MODS[(i + k + at / 24) % 3];
            const structs = [];
            for (let d = 0; d + 1 < levels; ++d) structs.push([d ? "Level" + d : "Top", [f(long + d, "Level" + (d + 1), M(d)), f("k", "uint8")]]);
            structs.push(["Level" + (levels - 1), names.slice(at, at + 24).map((n) => f(n, t, m))]);
            if (t === "Inner") structs.push(["Inner", [f("q", "uint8"), f("reader", "uint8", "[]"), f("writer", "Kind", "?")]]);
            yield mk(structs, t === "Kind" || t === "Inner" ? [["Kind", E()]] : [], "Top");
        }
    }
}

/** Every name for a field of every type, in the exported struct or in another one; for C08 and C09.
    What keywords and the like do is left to C17 */
function fields(thorough) {
    const out = [];
    const names = [...new Set([...variantNames(), ...(thorough ? SHORT : [])])].filter((n) => !KEYWORDS.includes(n) && !["write", "__proto__", "prototype", "name", "length", "caller"].includes(n));
    const types = thorough ? space.leaves() : [...space.BUILTINS, "E2", "E9", "E32"];
    for (let at = 0; at < names.length; at += 64) types.forEach((t, i) => space.MODS.forEach((m, j) => {
        const fs = names.slice(at, at + 64).map((n) => f(n, t, m)), inside = (i + j + at / 64) % 2;
        const enums = /^E/.test(t) ? [[t, space.variants(+t.slice(1))]] : [];
        for (const where of thorough ? [0, 1] : [inside]) {
            out.push(space.schema(map(where ? [["T__", [f("k__", "uint8"), f("s__", "S__", space.MODS[i % 3])]], ["S__", fs]] : [["T__", fs]]), map(enums), "T__", "names of fields"));
        }
    }));
    return out;
}

/** Words as they are, and with other capitals */
function variantNames() {
    return [...new Set([...NAMES, ...WORDS, ...AFFIXED].flatMap((n) => [n, n[0].toUpperCase() + n.slice(1), n[0].toLowerCase() + n.slice(1), n.toUpperCase(), n.toLowerCase()]))].filter((n) => !RESERVED.has(n));
}
function typeNames() {
    return [...new Set([...NAMES, ...WORDS, ...AFFIXED])].filter((n) => !KEYWORDS.includes(n) && !["T", "prototype", "read"].includes(n));
}

/** Names which join to the names of each other's paths */
const PATHS = ["a", "b", "a_b", "a_item", "a_len", "a_index", "item", "b_item", "_item", "a_temp", "item_b", "len"];
const FEW = ["a", "b", "a_b", "item", "a_item", "b_item", "a_item_b", "b_len"];

function* joins(thorough) {
    const mk = (structs, enums = []) => space.schema(map(structs), map(enums), "Top", "joined paths");
    for (const x of PATHS) for (const y of PATHS) if (x !== y) for (const p of PATHS) {
        yield mk([["Top", [f(x, "Inner", "[]"), f(y, "uint8", "[]")]], ["Inner", [f(p, "uint16", "[]")]]]);
        yield mk([["Top", [f(y, "Kind", "[]"), f(x, "Inner", "?")]], ["Inner", [f(p, "Kind", "[]"), f(p + "_", "Kind")]]], [["Kind", E()]]);
    }
    const list = thorough ? PATHS : FEW;
    for (const x of list) for (const y of list) if (x !== y) for (const p of list) for (const q of list) {
        yield mk([["Top", [f(x, "Mid", "[]"), f(y, "Kind", "[]")]], ["Mid", [f(p, "Inner", "[]")]], ["Inner", [f(q, "Kind", "[]")]]], [["Kind", E()]]);
        if (thorough) yield mk([["Top", [f(x, "Mid"), f(y, "Mid", "[]")]], ["Mid", [f(p, "Inner", "?")]], ["Inner", [f(q, "string", "[]")]]]);
    }
}

/** The same name for different things */
function* shared() {
    const N = ["Aa", "Bb", "aa"];
    for (let code = 0; code < 3 ** 7; ++code) {
        let c = code;
        const [top, inner, kind, x, y, v, p] = Array.from({ length: 7 }, () => { const n = N[c % 3]; c = Math.floor(c / 3); return n; });
        if (top === inner || top === kind || inner === kind || x === y) continue;
        yield space.schema(map([[top, [f(x, inner, "[]"), f(y, kind)]], [inner, [f(p, kind, "?")]]]), map([[kind, [v, v + "_"]]]), top, "shared names");
    }
    // differing in case, length, or an underscore only
    const near = ["a", "A", "aa", "a_", "_a", "a1", "a11", "__a"];
    for (const x of near) for (const y of near) if (x !== y) {
        for (const m of ["", "[]", "?"]) yield space.schema(map([["Top", [f(x, "uint8", m), f(y, "Inner", m)]], ["Inner", [f(y, "int16", m), f(x, "string", m)]]]), map([]), "Top", "near names");
        yield space.schema(map([[x, [f("p", y, "[]"), f("q", "K", "?")]], [y, [f("r", "uint8")]]]), map([["K", [x, y]]]), x, "near names");
    }
}

function* all(thorough) {
    yield* single();
    yield* joins(thorough);
    yield* shared();
    yield* long();
    yield* packed(thorough);
    yield* ends(thorough);
}

function judge(m, tools) {
    const s = m.spec;
    if (m.status !== 0) return "it is not accepted: " + m.message;
    if (m.errors.length) return "the module does not compile: " + m.errors[0];
    if (m.broken) return m.broken;
    let what = tools.guarded(() => tools.typesOf(m));
    if (what) return what;
    const walked = explore(1, (c) => {
        const v = space.value(s, c);
        what = tools.guarded(() => tools.layout(s, m.class, v));
        if (what) { what += ", value " + codec.show(v); return false; }
    });
    m.walked = walked;
    return what;
}

function run(exe, shard, shards, thorough, rep, tools) {
    const mine = [];
    let i = 0;
    for (const s of all(thorough)) if (i++ % shards === shard) mine.push(s);
    rep.add("states", mine.length);
    tools.modules(exe, mine, rep, { check: true, batch: 200 }, (m) => {
        const what = judge(m, tools);
        if (m.walked) { rep.add("transitions", m.walked.steps); rep.add("traces", m.walked.runs); }
        if (what) rep.violation(what, m.spec, {}, m.spec.at);
        else rep.sample(space.text(m.spec));
    });
}

function replay(exe, v, tools) {
    let what = null;
    const s = v.spec;
    // JSON gives objects a prototype
    s.structs = map(Object.entries(s.structs));
    s.enums = map(Object.entries(s.enums));
    const { Report } = require("./props");
    tools.modules(exe, [s], new Report(), { check: true }, (m) => { what = judge(m, tools); });
    return what;
}

module.exports = { run, replay, packed, long, fields, map, variantNames, typeNames, ENDS, NUMBERED };
