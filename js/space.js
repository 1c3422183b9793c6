"use strict";
// Schemas as data, the schema spaces, and values of a schema.

const BUILTINS = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string"];
const ENUM_SIZES = [1, 2, 8, 9, 16, 17, 32];
const MODS = ["", "[]", "?"];

const f = (name, type, mod = "") => ({ name, type, array: mod === "[]", optional: mod === "?" });
const variants = (n) => Array.from({ length: n }, (_, i) => "V" + i);

function schema(structs, enums, exp, family) { return { structs, enums, export: exp, family }; }

/** only the enums which are used */
function withEnums(structs, exp, family) {
    const enums = {};
    for (const fs of Object.values(structs)) for (const x of fs) if (/^E\d+$/.test(x.type)) enums[x.type] = variants(+x.type.slice(1));
    return schema(structs, enums, exp, family);
}

function text(s) {
    const out = [];
    for (const [n, v] of Object.entries(s.enums)) out.push(n + ": enum { " + v.join(", ") + " }");
    for (const [n, fs] of Object.entries(s.structs)) {
        out.push(n + ": struct { " + fs.map((x) => x.name + (x.optional ? "?" : "") + ": " + x.type + (x.array ? "[]" : "")).join(", ") + " }");
    }
    out.push("export " + s.export);
    return out.join("\n") + "\n";
}

const leaves = () => [...BUILTINS, ...ENUM_SIZES.map((n) => "E" + n)];

/** One path of structs with a marker at each step, ending in a leaf */
function* nestings(depth, leafs, padded) {
    const total = 3 ** (depth + 1);
    for (const leaf of leafs) for (let code = 0; code < total; ++code) {
        const structs = {};
        let c = code;
        for (let d = 0; d <= depth; ++d) {
            const mod = MODS[c % 3];
            c = Math.floor(c / 3);
            const type = d === depth ? leaf : "S" + (d + 1);
            const fs = [f("x", type, mod)];
            if (padded) { fs.unshift(f("a", "uint8")); fs.push(f("z", "uint16")); }
            structs["S" + d] = fs;
        }
        yield withEnums(structs, "S0", "nesting");
    }
}

/** Every sequence of `n` field kinds */
function* sequences(n, types) {
    const kinds = [];
    for (const t of types) for (const m of MODS) kinds.push([t, m]);
    for (let code = 0; code < kinds.length ** n; ++code) {
        let c = code;
        const fs = [];
        for (let i = 0; i < n; ++i) {
            const [t, m] = kinds[c % kinds.length];
            fs.push(f("f" + i, t, m));
            c = Math.floor(c / kinds.length);
        }
        const structs = { T: fs };
        if (fs.some((x) => x.type === "P")) structs.P = [f("x", "float"), f("y", "uint8", "?")];
        if (fs.some((x) => x.type === "N")) structs.N = [];
        if (fs.some((x) => x.type === "Q")) { structs.Q = [f("p", "R", "[]"), f("n", "string")]; structs.R = [f("u", "int16"), f("v", "E2")]; }
        yield withEnums(structs, "T", "sequence of " + n);
    }
}

function lists(max, kinds) {
    const out = [[]];
    let level = [[]];
    for (let i = 0; i < max; ++i) {
        const next = [];
        for (const l of level) for (const [t, m] of kinds) next.push([...l, f("f" + i, t, m)]);
        out.push(...next);
        level = next;
    }
    return out;
}

/** Three structs which use each other in every acyclic way, types used several times */
function* graphs(thorough) {
    const k0 = [["uint8", ""], ["S1", ""], ["S2", ""], ["S1", "[]"], ["S2", "?"], ...(thorough ? [["S1", "?"], ["S2", "[]"], ["E9", "?"]] : [])];
    const k1 = [["string", "?"], ["S2", ""], ["S2", "[]"], ["S2", "?"]];
    const k2 = [["int8", ""], ["E2", "[]"]];
    for (const a of lists(2, k0)) for (const b of lists(2, k1)) for (const c of lists(thorough ? 2 : 1, k2)) {
        const structs = { S0: a };
        const used = (t) => Object.values(structs).some((fs) => fs.some((x) => x.type === t));
        // unused ones only once
        if (used("S1")) structs.S1 = b; else if (b.length) continue;
        if (used("S2")) structs.S2 = c; else if (c.length) continue;
        yield withEnums(structs, "S0", "graph");
    }
}

/** One dimension large */
function* scaled(thorough) {
    const all = leaves();
    const top = thorough ? 80 : 40;
    for (let n = 1; n <= top; ++n) {
        yield withEnums({ T: Array.from({ length: n }, (_, i) => f("f" + i, all[(i * 7 + n) % all.length], MODS[(i + n) % 3])) }, "T", "wide");
        if (n <= (thorough ? 20 : 12)) {
            for (const m of MODS) {
                const structs = {};
                for (let d = 0; d < n; ++d) structs["S" + d] = [f("a", "uint8"), f("b", d + 1 < n ? "S" + (d + 1) : "string", m), f("c", "E9")];
                yield withEnums(structs, "S0", "deep");
            }
            const structs = { T: [] };
            for (let d = 0; d < n; ++d) {
                structs["S" + d] = Array.from({ length: d }, (_, i) => f("g" + i, all[(i + d) % all.length], MODS[(i + d) % 3]));
                structs.T.push(f("s" + d, "S" + d, MODS[d % 3]));
            }
            yield withEnums(structs, "T", "many structs");
        }
    }
    // wide structs in others, of different fields and of equal ones
    for (const n of [...Array(top).keys(), 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257].slice(1)) for (const m of MODS) {
        const structs = { T: [f("k", "uint8"), f("s", "S", m), f("z", "E9")], S: Array.from({ length: n }, (_, i) => f("f" + i, all[(i * 7 + n) % all.length], MODS[(i + n) % 3])) };
        if (n <= top || m === "") yield withEnums(structs, "T", "wide inside");
    }
    for (const n of thorough ? [2, 3, 5, 9, 12, 13, 16, 17, 20, 31, 32, 33, 40, 64] : [9, 13, 17, 33]) for (const t of all) for (const m of MODS) {
        yield withEnums({ T: Array.from({ length: n }, (_, i) => f("f" + i, t, m)) }, "T", "alike");
        if (n < 33) yield withEnums({ T: [f("s", "S", m), f("u", "uint8")], S: Array.from({ length: n }, (_, i) => f("f" + i, t, m)) }, "T", "alike");
    }
}

/** Many types in one schema */
function* many(thorough) {
    const sizes = [...Array.from({ length: thorough ? 80 : 36 }, (_, i) => i + 2), 63, 64, 65, 100, 127, 128, 129, ...(thorough ? [200, 255, 256, 257, 300] : [])];
    for (const n of sizes) {
        const kinds = Array.from({ length: n }, (_, i) => i);
        const enums = Object.fromEntries(kinds.map((i) => ["Kind" + i, variants(1 + (i * 5 + n) % 32)]));
        yield schema({ T: kinds.map((i) => f("f" + i, "Kind" + i, MODS[(i + n) % 3])) }, enums, "T", "many types");
        const structs = { T: kinds.map((i) => f("f" + i, "Part" + i, MODS[(i + n) % 3])) };
        for (const i of kinds) structs["Part" + i] = [f("v", BUILTINS[(i + n) % 8], MODS[i % 3]), ...(i % 4 === 1 ? [f("w", "Part" + (i - 1))] : [])];
        yield schema(structs, {}, "T", "many types");
        // all of them within another one
        const mixed = { T: [f("a", "uint8"), f("s", "S", MODS[n % 3])], S: kinds.map((i) => f("f" + i, (i % 2 ? "Part" : "Kind") + i, MODS[(i + n) % 3])) };
        for (const i of kinds) if (i % 2) mixed["Part" + i] = [f("v", "Kind" + (i - 1)), f("w", "string", MODS[i % 3])];
        yield schema(mixed, Object.fromEntries(kinds.filter((i) => i % 2 === 0).map((i) => ["Kind" + i, enums["Kind" + i]])), "T", "many types");
    }
}

/** Every path of markers of that length in one schema */
function tree(depth, leaf) {
    const structs = {};
    for (let d = 0; d < depth; ++d) {
        const type = d + 1 < depth ? "S" + (d + 1) : leaf;
        structs["S" + d] = [f("x", type), f("y", type, "[]"), f("z", type, "?")];
    }
    if (leaf === "N") structs.N = [];
    return withEnums(structs, "S0", "tree");
}
function* trees(thorough, most) {
    for (const leaf of thorough ? [...leaves(), "N"] : ["string", "E9", "uint16", "N"]) for (let depth = 5; depth <= most; ++depth) yield tree(depth, leaf);
}

/** Structs of very many fields, and very many types */
function* huge(thorough) {
    const all = leaves();
    for (const n of [300, 400, 500, 511, 512, 513, 600, 800, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049]) {
        const fs = Array.from({ length: n }, (_, i) => f("f" + i, all[(i * 7 + n) % all.length], MODS[(i + n) % 3]));
        yield withEnums({ T: fs }, "T", "very wide");
        for (const m of thorough ? MODS : [MODS[n % 3]]) yield withEnums({ T: [f("k", "uint8"), f("s", "S", m), f("z", "E9")], S: fs }, "T", "very wide");
        if (!thorough && ![513, 1025, 1500, 2049].includes(n)) continue;
        const kinds = Array.from({ length: n }, (_, i) => i);
        const structs = { T: kinds.map((i) => f("f" + i, (i % 2 ? "Part" : "Kind") + i, MODS[(i + n) % 3])) };
        for (const i of kinds) if (i % 2) structs["Part" + i] = [f("v", "Kind" + (i - 1)), f("w", BUILTINS[i % 8], MODS[i % 3])];
        yield schema(structs, Object.fromEntries(kinds.filter((i) => i % 2 === 0).map((i) => ["Kind" + i, variants(1 + (i * 5 + n) % 32)])), "T", "very many types");
    }
}

/** A cyclic sequence in which every `n` numbers below `k` follow each other once */
function cycle(k, n) {
    const a = Array(k * n).fill(0), out = [];
    const go = (t, p) => {
        if (t > n) {
            if (n % p === 0) for (let i = 1; i <= p; ++i) out.push(a[i]);
            return;
        }
        a[t] = a[t - p];
        go(t + 1, p);
        for (let j = a[t - p] + 1; j < k; ++j) {
            a[t] = j;
            go(t + 1, t);
        }
    };
    go(1, 1);
    return out;
}

const ROW_TYPES = [...BUILTINS, "E2", "E9", "E17", "P", "N", "Q"];
const ROW_PARTS = { P: [f("x", "float"), f("y", "uint8", "?")], N: [], Q: [f("p", "R", "[]"), f("n", "string")], R: [f("u", "int16"), f("v", "E2")] };
function row(structs, family) {
    for (const [n, fs] of Object.entries(ROW_PARTS)) if (Object.values(structs).some((l) => l.some((x) => x.type === n))) structs[n] = fs;
    return withEnums(structs, "T", family);
}

/** Structs in which every `n` kinds of fields follow each other somewhere */
function* rows(n) {
    const kinds = ROW_TYPES.flatMap((t) => MODS.map((m) => [t, m]));
    const seq = cycle(kinds.length, n);
    for (let at = 0, i = 0; at < seq.length; at += 60, ++i) {
        const fs = Array.from({ length: 60 + n - 1 }, (_, j) => f("f" + j, ...kinds[seq[(at + j) % seq.length]]));
        yield row(i % 2 ? { T: [f("k", "uint8"), f("s", "S", MODS[(i >> 1) % 3])], S: fs } : { T: fs }, "rows of " + n);
    }
}

/** Every three kinds of fields as the fields of a struct */
function* triples(thorough) {
    const kinds = (thorough ? ROW_TYPES : ["uint8", "int16", "uint32", "int32", "float", "string", "E9", "P", "N"]).flatMap((t) => MODS.map((m) => [t, m])), k = kinds.length;
    for (let at = 0; at < k ** 3; at += 60) {
        const structs = { T: [] };
        for (let c = at; c < at + 60 && c < k ** 3; ++c) {
            structs["S" + (c - at)] = [c % k, Math.floor(c / k) % k, Math.floor(c / k / k)].map((x, i) => f("f" + i, ...kinds[x]));
            structs.T.push(f("s" + (c - at), "S" + (c - at), MODS[(c + at) % 3]));
        }
        yield row(structs, "triples");
    }
}

/** Which items of an array of up to `most` are equal: each item says which is the first like it */
function patterns(most) {
    const out = [];
    let level = [[0]];
    for (let n = 2; n <= most; ++n) {
        level = level.flatMap((p) => [...new Set(p), n - 1].map((x) => [...p, x]));
        out.push(...level);
    }
    return out;
}

const copy = (v) => Array.isArray(v) ? v.map(copy) : v !== null && typeof v === "object" ? Object.assign(Object.create(null), ...Object.keys(v).map((k) => ({ [k]: copy(v[k]) }))) : v;

/** Enums of every size, at the top and nested */
function* enumsOfAllSizes() {
    for (let n = 1; n <= 32; ++n) for (const m of MODS) {
        if (!ENUM_SIZES.includes(n)) yield withEnums({ T: [f("x", "E" + n, m)] }, "T", "one field");
        yield withEnums({ T: [f("s", "S", MODS[n % 3]), f("k", "uint16"), f("e", "E" + n)], S: [f("a", "uint8"), f("x", "E" + n, m), f("y", "E" + (33 - n), MODS[(n + 1) % 3])] }, "T", "enums");
    }
}

/** The same struct at two places, at different depths */
function* twice() {
    for (const m of MODS) for (const n of MODS) for (const o of MODS) for (const p of MODS) {
        yield withEnums({
            T: [f("a", "P", m), f("b", "Q", n), f("c", "P", o)],
            Q: [f("p", "P", p), f("q", "E9")],
            P: [f("x", "string"), f("e", "E2", "[]"), f("y", "int16", "?")],
        }, "T", "twice");
    }
}

function* all(thorough) {
    for (const t of [...leaves()]) for (const m of MODS) yield withEnums({ T: [f("x", t, m)] }, "T", "one field");
    yield withEnums({ T: [] }, "T", "empty");
    for (const m of MODS) yield withEnums({ T: [f("a", "uint8"), f("n", "N", m), f("z", "uint8")], N: [] }, "T", "empty");
    for (let d = 0; d <= 2; ++d) yield* nestings(d, leaves(), true);
    yield* nestings(1, leaves(), false);
    yield* nestings(3, thorough ? leaves() : ["string", "E9"], true);
    if (thorough) yield* nestings(4, ["string", "E9", "uint8"], true);
    if (thorough) yield* nestings(2, leaves(), false);
    yield* sequences(2, thorough ? [...leaves(), "P", "N", "Q"] : ["uint8", "int32", "string", "E2", "E9", "P", "N", "Q"]);
    yield* sequences(3, thorough ? ["uint8", "string", "E9", "P", "Q"] : ["string", "P"]);
    yield* graphs(thorough);
    yield* scaled(thorough);
    yield* enumsOfAllSizes();
    yield* twice();
    yield* many(thorough);
}

const ALT = {
    __proto__: null,
    uint8: [0, 1, 127, 128, 255], uint16: [0, 1, 255, 256, 32767, 32768, 65535],
    uint32: [0, 1, 65535, 65536, 2147483647, 2147483648, 4294967295],
    int8: [0, 1, 127, -128, -1], int16: [0, 1, 255, 256, 32767, -32768, -1], int32: [0, 1, 65536, 2147483647, -2147483648, -1],
    float: [0, -0, 1, -1.5, 3.4028234663852886e38, 1.401298464324817e-45, Infinity, -Infinity, NaN],
    string: ["", "a", "\0", "~".repeat(255), "x".repeat(256)],
};

/** How many arrays are nested in each other */
function arrayDepth(s, t = s.export) {
    return Math.max(0, ...(s.structs[t] || []).map((x) => (x.array ? 1 : 0) + arrayDepth(s, x.type)));
}

/** Every character alone, next to others and at both ends; texts which mean something elsewhere */
const TEXTS = (() => {
    const out = [];
    for (let i = 0; i < 128; ++i) {
        const c = String.fromCharCode(i);
        out.push(c, "a" + c, c + "a", "a" + c + "b", c + c);
    }
    for (let n = 0; n <= 70; ++n) out.push("0123456789".repeat(7).slice(0, n));
    for (const w of ["undefined", "null", "NaN", "true", "false", "0", "-1", "1e3", "[object Object]", "__proto__", "constructor", "${x}", "%s", "\\n", "\\0", "\\u0041", "\r\n", "<!--", "*/", "//", "'+'", "  a  ", "\t\n\v\f\r ", "a\0b\0"]) out.push(w);
    return out;
})();
const range = (bits, signed) => {
    const out = new Set(), lo = signed ? -(2 ** (bits - 1)) : 0, hi = signed ? 2 ** (bits - 1) - 1 : 2 ** bits - 1;
    for (let v = signed ? -128 : 0; v < (signed ? 128 : 256); ++v) out.add(v);
    for (let i = 0; i <= bits; ++i) for (const d of [-2, -1, 0, 1, 2]) for (const g of [1, -1]) out.add(g * 2 ** i + d);
    for (let i = 0; i < 256; ++i) for (const v of [i * 257, i * 0x01010101, i * 256, i * 65536, i * 2 ** 24, i * 2 ** 24 + 255, lo + i, hi - i]) out.add(v);
    for (const v of [10, 100, 1000, 10000, 100000, 1000000, 1e9, 12345, 123456789]) out.add(v);
    return [...out].filter((v) => v >= lo && v <= hi);
};
const FLOATS = (() => {
    const out = new Set([0, -0, NaN, Infinity, -Infinity]);
    for (let e = -149; e <= 127; ++e) for (const g of [1, -1]) out.add(g * 2 ** e);
    for (const v of [0.1, 1 / 3, 1.5, 2.5, 123.456, 1e10, 1e-10, 16777215, 16777216, 3.4028234663852886e38, 1.1754943508222875e-38, 1.1754942106924411e-38]) out.add(Math.fround(v)).add(Math.fround(-v));
    return [...out];
})();
const TABLES = { __proto__: null, uint8: range(8), uint16: range(16), uint32: range(32), int8: range(8, true), int16: range(16, true), int32: range(32, true), float: FLOATS, string: TEXTS };

/** The k-th value: the k-th of each type at all places, or each place another one behind it */
function tabled(s, k, apart) {
    let n = 0;
    return value(s, { choose: () => 0 }, undefined, (t) => {
        const at = k + (apart ? 7 * n++ : 0), e = s.enums[t];
        return e ? 2 ** (at % e.length) : TABLES[t][at % TABLES[t].length];
    });
}

/** How many reads one item of each array takes, at most */
function breadth(s, t = s.export) {
    return (s.structs[t] || []).reduce((n, x) => n + 2 + breadth(s, x.type), 0);
}

/** How many of them are different */
function rounds(s) {
    const used = new Set(Object.values(s.structs).flatMap((fs) => fs.map((x) => x.type)));
    return Math.max(0, ...[...used].map((t) => TABLES[t] ? TABLES[t].length : s.enums[t] ? s.enums[t].length : 0));
}

/** A value of the exported struct, by choices; defaults are all different and not zero.
    `lengths` are those of the arrays by level, the last one also for those further inside; `leaf` gives the values otherwise.
    Otherwise `lengths` has a pattern of the items of all arrays, or wants the same object for all values of a type. */
function value(s, c, lengths, leaf) {
    let n = 0, level = 0;
    const { pattern, shared, same } = lengths || {}, known = new Map();
    const once = (t, make) => {
        if (!same) return make();
        if (!known.has(t)) known.set(t, make());
        return known.get(t);
    };
    const items = (t) => {
        const out = [];
        for (const p of pattern) out.push(p === out.length ? type(t) : shared ? out[p] : copy(out[p]));
        return out;
    };
    const type = (t) => s.structs[t] ? once(t, () => any(t)) : any(t);
    const any = (t) => {
        ++n;
        if (leaf && !s.structs[t]) return leaf(t);
        if (ALT[t]) {
            const k = c.choose(1 + ALT[t].length);
            if (k > 0) return ALT[t][k - 1];
            switch (t) {
                case "uint8": return 3 + (n * 37) % 250;
                case "uint16": return (258 + n * 259) % 65536;
                case "uint32": return (0x01020304 + n * 0x01010101) % 2 ** 32;
                case "int8": return -3 - n % 100;
                case "int16": return -259 - (n * 3) % 32000;
                case "int32": return -0x01020304 - n;
                case "float": return n + 0.5;
                case "string": return "s" + n;
            }
        }
        const e = s.enums[t];
        if (e) {
            const some = [...new Set([n % e.length, 0, e.length - 1, Math.floor(e.length / 2)])];
            return 2 ** some[c.choose(some.length)];
        }
        // any name is a name
        const v = Object.create(null);
        for (const x of s.structs[t]) {
            ++n;
            if (x.optional && c.choose(2) === 1) {
                // absent, in both ways
                if (n % 2) v[x.name] = undefined;
            } else if (x.array) {
                const len = same ? 2 : pattern ? 0 : lengths ? lengths[Math.min(level, lengths.length - 1)] : [1, 0, 2, 3][c.choose(4)];
                ++level;
                v[x.name] = pattern ? items(x.type) : once(x.type + "[]", () => Array.from({ length: len }, () => type(x.type)));
                --level;
            } else {
                v[x.name] = type(x.type);
            }
        }
        return v;
    };
    return type(s.export);
}

/** One array of the given length, at a level; strings of the given length everywhere */
function sized(s, level, len) {
    const lengths = [...Array(level).fill(1), len, 1];
    let n = 0;
    return value(s, { choose: () => 0 }, lengths, (t) => {
        const at = n++, e = s.enums[t];
        return e ? 2 ** (at % e.length) : t === "string" ? "s" + at : ALT_DEFAULT[t][at % ALT_DEFAULT[t].length];
    });
}
const ALT_DEFAULT = {
    __proto__: null, uint8: [3, 255, 7, 128], uint16: [258, 65535, 9, 32768], uint32: [0x01020304, 4294967295, 11, 2147483648], int8: [-3, 127, -128, 5], int16: [-259, 32767, -32768, 6],
    int32: [-0x01020304, 2147483647, -2147483648, 8], float: [0.5, -1.5, 2.25, 1e10],
};
function stringy(s, len) {
    let n = 0;
    return value(s, { choose: () => 0 }, [1], (t) => t === "string" ? String.fromCharCode(97 + n++ % 26).repeat(len) : s.enums[t] ? 1 : ALT_DEFAULT[t][n++ % 4]);
}
const uses = (s, t) => Object.values(s.structs).some((fs) => fs.some((x) => x.type === t));

/** How many places of a default value can be chosen differently */
function alternatives(s) {
    let n = 0;
    value(s, { choose(k) { n += k - 1; return 0; } });
    return n;
}

module.exports = { sized, stringy, uses, f, schema, withEnums, variants, text, all, leaves, nestings, sequences, graphs, scaled, trees, huge, rows, triples, patterns, value, tabled, rounds, breadth, TEXTS, alternatives, arrayDepth, BUILTINS, ENUM_SIZES, MODS, ALT };
