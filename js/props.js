"use strict";
// The checks of generated modules. Each takes a shard of a schema space.
const space = require("./space");
const codec = require("./codec");
const runtime = require("./runtime");
const { explore } = require("./choices");
const { ts, compileSchemas, program, load } = require("./tsc");

class Report {
    constructor() { this.counts = {}; this.outcomes = {}; this.samples = []; this.violations = []; this.findings = {}; }
    add(k, n = 1) { this.counts[k] = (this.counts[k] || 0) + n; }
    outcome(k, n = 1) { this.outcomes[k] = (this.outcomes[k] || 0) + n; }
    sample(x) { if (this.samples.length < 3) this.samples.push(x); }
    /** `finding` classifies violations which may be known; only the first of a class is kept */
    violation(what, s, data, finding) {
        if (finding) this.outcome("finding: " + finding);
        if (this.findings[finding]) return;
        const v = { what, input: typeof s === "string" ? s : space.text(s), spec: s, data, finding };
        if (finding) {
            this.findings[finding] = v;
        } else if (this.violations.length < 20) {
            this.violations.push(v);
        }
    }
    get full() { return this.violations.length >= 20; }
}

/** Compiles, type-checks (if asked), emits and loads specs in batches; calls back with each */
function modules(exe, specs, rep, opts, back) {
    const size = opts.batch || 120;
    for (let at = 0; at < specs.length && !rep.full; at += size) {
        const batch = specs.slice(at, at + size);
        const made = compileSchemas(exe, batch.map((s) => (s.text || space.text(s))));
        const files = {};
        batch.forEach((s, i) => {
            if (made[i].status !== 0) return;
            files["m" + i] = made[i].text;
            if (s.consumer) files["c" + i] = s.consumer("./m" + i);
        });
        const p = program(files);
        if (opts.check) p.check();
        if (opts.emit !== false) p.emit();
        batch.forEach((s, i) => {
            const m = { spec: s, status: made[i].status, message: made[i].text };
            if (made[i].status !== 0) {
                rep.outcome("not accepted");
            } else {
                Object.assign(m, p.out["m" + i], { program: p.program, ts: made[i].text });
                if (opts.emit !== false) {
                    try {
                        const e = load(m.js);
                        m.class = e[s.export];
                        if (p.out["c" + i]) {
                            m.consumerErrors = p.out["c" + i].errors;
                            m.consumer = load(p.out["c" + i].js, { ["./m" + i]: e });
                        }
                    } catch (e) {
                        m.broken = "the module does not load: " + e;
                    }
                    if (!m.broken && typeof m.class !== "function") m.broken = "the module does not export class " + s.export;
                }
                rep.outcome("module: " + (s.family || "other"));
            }
            if (rep.at) rep.at(s);
            back(m);
            if (rep.at) rep.at(null);
        });
    }
}

const buffer = (bytes) => bytes.buffer.slice(bytes.byteOffset, bytes.byteOffset + bytes.length);
const hex = (b) => Array.from(new Uint8Array(b), (x) => x.toString(16).padStart(2, "0")).join(" ").slice(0, 400);
const same = (a, b) => {
    if (a.byteLength !== b.byteLength) return false;
    const x = new Uint8Array(a), y = new Uint8Array(b);
    for (let i = 0; i < x.length; ++i) if (x[i] !== y[i]) return false;
    return true;
};

function instance(s, cls, v) { return new cls(...s.structs[s.export].map((x) => v[x.name])); }

/** The value which was read or written before, in the same module */
let earlier = null;

/** C08 on one value */
function roundTrip(s, cls, v, rep) {
    const o = instance(s, cls, v);
    const before = codec.show(o);
    const bytes = o.write();
    if (codec.show(o) !== before || codec.differ(s, s.export, o, v, s.export)) return "writing changes the value";
    if (!(bytes instanceof ArrayBuffer)) return "write does not return a buffer";
    if (!same(o.write(), bytes)) return "writing twice gives different bytes";
    for (const size of [0, 1, 1000]) {
        // an earlier packet may be left in the buffer
        const used = new ArrayBuffer(size);
        new Uint8Array(used).fill(0xa5);
        if (size > 0 && !same(o.write(used), bytes)) return "writing to a given buffer gives different bytes";
    }
    runtime.observed.budget = 100 * bytes.byteLength + 1000;
    const back = cls.read(bytes);
    if (back === null || back === undefined) return "its own bytes are rejected: " + hex(bytes);
    const d = codec.differ(s, s.export, back, v, s.export);
    if (d) return "read back differently: " + d;
    if (earlier) {
        // values and packets belong to their owners
        const e = codec.differ(s, s.export, earlier.back, earlier.v, s.export);
        if (e) return "reading changes a value which was read before: " + e;
        if (!same(earlier.o.write(), earlier.bytes)) return "an earlier value is written differently";
        if (!same(bytes, o.write())) return "an earlier value is written into the packet of a later one";
    }
    earlier = { v, o, back, bytes };
    if (runtime.observed.reader.pos !== bytes.byteLength) return "reading consumes " + runtime.observed.reader.pos + " of " + bytes.byteLength + " bytes";
    if (typeof back.write === "function") {
        if (!same(back.write(), bytes)) return "writing the read value gives different bytes";
    } else {
        rep.violation("the object which read returns has no write method", s, {}, "decoded-object-has-no-write");
        if (!same(cls.prototype.write.call(back), bytes)) return "writing the read value gives different bytes";
    }
    return null;
}

/** C09 on one value */
function layout(s, cls, v) {
    const want = codec.encode(s, v);
    const got = instance(s, cls, v).write();
    if (!same(got, buffer(want))) return "written as " + hex(got) + " instead of " + hex(want);
    runtime.observed.budget = 100 * want.length + 1000;
    const back = cls.read(buffer(want));
    if (back === null || back === undefined) return "the reader rejects " + hex(want);
    const d = codec.differ(s, s.export, back, v, s.export);
    if (d) return hex(want) + " is read differently: " + d;
    if (runtime.observed.reader.pos !== want.length) return "reading consumes " + runtime.observed.reader.pos + " of " + want.length + " bytes";
    return null;
}

const guarded = (f) => {
    try { return f(); } catch (e) { return "it throws " + e; }
};

function valueProps(prop, exe, specs, rep, thorough) {
    const judge = prop === "C08" ? roundTrip : layout;
    modules(exe, specs, rep, { check: false }, (m) => {
        if (m.status !== 0) return;
        const s = m.spec;
        if (m.broken) return rep.violation(m.broken, s, {});
        rep.add("schemas");
        const a = space.alternatives(s);
        if (/^(names of fields|rows of \d|triples|tree|very wide|very many types)$/.test(s.family)) return named(s, m, judge, rep);
        const bound = a <= (thorough ? 90 : 60) ? 2 : 1;
        let n = 0;
        earlier = null;
        const walked = explore(bound, (c) => {
            const v = space.value(s, c);
            ++n;
            const what = guarded(() => judge(s, m.class, v, rep));
            if (what) {
                rep.violation(what + ", value " + codec.show(v), s, { choices: c.trace.map(([x]) => x) });
                return false;
            }
        });
        rep.add("states", walked.nodes);
        rep.add("transitions", walked.steps);
        // longer arrays at all places at once
        const depth = space.arrayDepth(s);
        for (const lengths of depth === 0 ? [] : depth <= 3 ? [[5, 4], [17, 2], [300, 1], [257, 0], [1, 9]] : [[4, 1], [40, 1]]) {
            const v = space.value(s, { choose: () => 0 }, lengths);
            ++n;
            const what = guarded(() => judge(s, m.class, v, rep));
            if (what) rep.violation(what.slice(0, 300) + ", arrays of " + lengths.join(" and "), s, { lengths });
        }
        // items which are equal, or the same
        const inner = Object.values(s.structs).some((fs) => fs.some((x) => x.array && s.structs[x.type]));
        const most = depth === 0 || depth > 6 ? 0 : depth > 4 ? 2 : depth > 3 ? 3 : thorough || s.family === "one field" ? 5 : s.family === "nesting" ? 4 : 3;
        for (const pattern of space.patterns(most)) for (const shared of inner ? [false, true] : [false]) {
            ++n;
            const what = guarded(() => judge(s, m.class, space.value(s, { choose: () => 0 }, { pattern, shared }), rep));
            if (what) rep.violation(what.slice(0, 300) + ", equal items as in " + pattern, s, { lengths: { pattern, shared } });
        }
        if (depth < 8) {
            ++n;
            const what = guarded(() => judge(s, m.class, space.value(s, { choose: () => 0 }, { same: true }), rep));
            if (what) rep.violation(what.slice(0, 300) + ", the same object for all values of a type", s, { lengths: { same: true } });
        }
        // every value of the tables, at all places at once
        const small = s.family === "one field";
        for (let k = Math.min(space.rounds(s), small || thorough ? Infinity : space.TEXTS.length) - 1; k >= 0; --k) for (const apart of small || thorough || s.family === "nesting" ? [false, true] : [false]) {
            const v = space.tabled(s, k, apart);
            ++n;
            const what = guarded(() => judge(s, m.class, v, rep));
            if (what) {
                rep.violation(what.slice(0, 300) + ", value " + codec.show(v).slice(0, 300), s, { round: k, apart });
                break;
            }
        }
        // one long array at each level, long strings everywhere
        const special = (long) => long ? [100, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 4096, 5000] : [100, 127, 128, 255, 256, 1000];
        const again = (what, data) => { if (what) rep.violation(what.slice(0, 300) + ", " + JSON.stringify(data), s, data); };
        if (depth > 0 && depth <= 4) for (let level = 0; level < depth; ++level) {
            const every = s.family === "nesting" && (thorough || depth > 2 || space.uses(s, "uint8") && Object.keys(s.structs).length < 3);
            for (const len of every ? [...Array(131).keys(), ...special(true)] : special(s.family === "nesting" || thorough)) {
                ++n;
                again(guarded(() => judge(s, m.class, space.sized(s, level, len), rep)), { level, len });
            }
        }
        if (space.uses(s, "string")) for (const len of [20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 4095, 4096, 5000, ...(thorough || s.family === "nesting" ? [65535, 65536, 70000] : [])]) {
            ++n;
            again(guarded(() => judge(s, m.class, space.stringy(s, len), rep)), { chars: len });
        }
        // long arrays and strings
        if (s.family === "one field" || s.family === "empty") for (const len of [7, 8, 9, 255, 256, 257, 1000, 65535, 65536, 70000]) {
            const x = s.structs[s.export][0];
            if (!x || !(x.array || x.type === "string") || len > 1000 && x.type === "string" && x.array) continue;
            const one = space.value(s, { choose: () => 0 })[x.name];
            const v = {};
            if (x.array) v[x.name] = Array.from({ length: len }, (_, i) => typeof one[0] === "number" && !s.enums[x.type] ? (i % 100) + 1 : x.type === "string" ? "t" + i : one[0]);
            else v[x.name] = "q".repeat(len);
            ++n;
            const what = guarded(() => judge(s, m.class, v, rep));
            if (what) rep.violation(what.slice(0, 300) + ", length " + len, s, { length: len });
        }
        rep.add("traces", n);
        if (n % 7 === 0) rep.sample(space.text(s) + " value " + codec.show(space.value(s, { choose: () => 0 })));
    });
}

/** Each alternative at all places at once, and some of the tables */
function named(s, m, judge, rep) {
    let n = 0;
    earlier = null;
    for (let k = 0; k < 10; ++k) {
        const choices = [];
        const v = space.value(s, { choose: (most) => { const x = Math.min(k, most - 1); choices.push(x); return x; } });
        ++n;
        const what = guarded(() => judge(s, m.class, v, rep));
        if (what) return rep.violation(what.slice(0, 300) + ", value " + codec.show(v).slice(0, 300), s, { choices });
    }
    const all = space.rounds(s);
    const some = s.family === "names of fields" ? 24 : 3;
    for (let i = 0; i < some; ++i) {
        const round = Math.floor(i * all / some);
        ++n;
        const what = guarded(() => judge(s, m.class, space.tabled(s, round, true), rep));
        if (what) return rep.violation(what.slice(0, 300) + ", round " + round, s, { round, apart: true });
    }
    rep.add("traces", n);
}

/** C10 on one byte string: null, or what is wrong, as [what, finding] */
function receive(s, cls, bytes, rep) {
    const want = codec.decode(s, bytes);
    if (want.skip) { rep.outcome("skipped: huge count of zero-width items"); return null; }
    // loops around a failed read go on, one per level
    runtime.observed.budget = (20 * bytes.length + 100) * Math.max(1, Math.ceil(space.breadth(s) / 50));
    let got;
    try {
        got = cls.read(buffer(bytes));
    } catch (e) {
        if (e instanceof runtime.Budget) {
            // an array count which the packet cannot contain
            return ["reading does not end within " + runtime.observed.budget + " reads", want.huge || want.vague ? "array-count-unbounded" : undefined];
        }
        return ["it throws " + e];
    }
    if (want.bad !== undefined) {
        rep.outcome(want.huge ? "rejected: count exceeds the packet" : want.bad.startsWith("undeclared") ? "rejected: undeclared enum value" : "rejected: ends early");
        if (got === null || want.vague) return null;
        return ["accepted as " + codec.show(got) + " although it has: " + want.bad];
    }
    if (want.vague) { rep.outcome("presence byte above 1"); return null; }
    if (got === null || got === undefined) return ["rejected, but it is " + codec.show(want.ok)];
    const d = codec.differ(s, s.export, got, want.ok, s.export);
    if (d) return ["decoded differently: " + d];
    if (runtime.observed.reader.pos !== want.used) return ["it consumes " + runtime.observed.reader.pos + " bytes instead of " + want.used];
    rep.outcome("decoded");
    return null;
}

const WINDOWS = [[255, 255, 255, 255], [0, 0, 0, 128], [255, 255, 255, 127], [254, 255, 255, 255], [0, 0, 1, 0]];

/** A wrong byte anywhere, and every beginning; counts which the packet cannot contain are left to smaller schemas */
function* inTree(s) {
    const b = codec.encode(s, space.value(s, { choose: () => 0 }));
    for (let i = 0; i < b.length; ++i) {
        yield b.slice(0, i);
        for (const v of [0, 3, 255]) {
            const c = b.slice();
            c[i] = v;
            const want = codec.decode(s, c);
            if (!want.huge && !want.vague) yield c;
        }
    }
    yield b;
}

function* packets(s, thorough) {
    if (s.family === "tree") return yield* inTree(s);
    const bases = [];
    // the default, everything absent or empty, two items everywhere
    for (const pick of [() => 0, (n) => n === 2 ? 1 : 0, (n) => n === 4 ? 1 : 0, (n) => n === 4 ? 2 : 0]) {
        bases.push(codec.encode(s, space.value(s, { choose: pick })));
    }
    const seen = new Set();
    for (const [k, b] of bases.entries()) {
        const key = b.join();
        if (seen.has(key) || k > 0 && b.length > (thorough ? 2000 : 300)) continue;
        seen.add(key);
        for (let n = 0; n <= b.length; ++n) yield b.slice(0, n);
        for (const tail of [[0], [1], [255], [0, 0, 0, 0], [1, 2, 3, 4, 5, 6, 7, 8]]) yield Uint8Array.from([...b, ...tail]);
        // much more behind it
        if (k === 0) for (const more of [16, 100, 255, 256, 1000, 1024, 4096, 5000, 65536, 70000]) for (const v of more > 5000 ? [0] : [0, 255]) {
            const c = new Uint8Array(b.length + more).fill(v);
            c.set(b);
            yield c;
        }
        const limit = thorough ? 200 : 60;
        // a count, or whatever is there, with its highest or all bits set
        if (k === 0 || k === 3 && s.family === "nesting") for (let i = 0; i + 4 <= b.length && i < limit; ++i) for (const word of WINDOWS) {
            const c = b.slice();
            c.set(word, i);
            yield c;
        }
        for (let i = 0; i < b.length && i < limit; ++i) {
            const values = k === 0 && b.length <= (s.family === "graph" ? 12 : 40) || thorough ? 256 : 0;
            for (let v = 0; v < values; ++v) { const c = b.slice(); c[i] = v; yield c; }
            if (!values) for (const v of [0, 1, 2, 3, 4, 128, 255]) { const c = b.slice(); c[i] = v; yield c; }
            // a byte too few and a byte too many
            yield Uint8Array.from([...b.slice(0, i), ...b.slice(i + 1)]);
            yield Uint8Array.from([...b.slice(0, i), 0, ...b.slice(i)]);
            yield Uint8Array.from([...b.slice(0, i), 1, ...b.slice(i)]);
        }
    }
    // longer arrays, with a wrong byte anywhere
    const nested = space.arrayDepth(s);
    for (const lengths of nested === 0 ? [] : nested <= 3 ? [[5, 1], [3, 3], ...(s.family === "one field" ? [[20, 1], [300, 1]] : [])] : [[3, 1]]) {
        const b = codec.encode(s, space.value(s, { choose: () => 0 }, lengths));
        const step = thorough ? 1 : Math.max(1, Math.floor(b.length / (s.family === "graph" || s.family.startsWith("wide") || s.family === "alike" ? 100 : 400)));
        for (let i = 0; i < b.length; i += step) {
            for (const v of [0, 3, 255]) { const c = b.slice(); c[i] = v; yield c; }
            yield b.slice(0, i);
        }
    }
    // large ones, whole and with the last byte missing
    const large = [];
    if (space.uses(s, "string")) large.push(...[1000, 4096, 5000, ...(space.breadth(s) < 60 ? [65536, 70000] : [])].map((len) => space.stringy(s, len)));
    for (let level = 0; level < nested && level < 3; ++level) large.push(space.sized(s, level, s.family === "one field" ? 5000 : 600));
    for (const v of large) {
        const b = codec.encode(s, v);
        yield b;
        yield b.slice(0, b.length - 1);
    }
    // two wrong bytes
    const d = bases[0];
    if (d.length <= (thorough ? 40 : 11)) for (let i = 0; i < d.length; ++i) for (let j = i + 1; j < d.length; ++j) {
        for (const v of [0, 1, 2, 3, 255]) for (const w of [0, 1, 2, 3, 255]) { const c = d.slice(); c[i] = v; c[j] = w; yield c; }
    }
    const alpha = [0, 1, 2, 255];
    const depth = thorough ? 7 : 5;
    for (let n = 0; n <= depth; ++n) for (let code = 0; code < alpha.length ** n; ++code) {
        const b = new Uint8Array(n);
        for (let i = 0, c = code; i < n; ++i, c = Math.floor(c / alpha.length)) b[i] = alpha[c % alpha.length];
        yield b;
    }
    if (s.family === "one field" || s.family === "empty") {
        for (let a = 0; a < 256; ++a) {
            yield Uint8Array.from([a]);
            for (let b = 0; b < 256; ++b) yield Uint8Array.from([a, b]);
        }
    }
}

function hostile(exe, specs, rep, thorough) {
    Error.stackTraceLimit = 0;
    modules(exe, specs, rep, { check: false }, (m) => {
        if (m.status !== 0) return;
        const s = m.spec;
        if (m.broken) return rep.violation(m.broken, s, {});
        rep.add("states");
        let n = 0, steps = 0;
        for (const b of packets(s, thorough)) {
            ++n;
            steps += b.length;
            const w = receive(s, m.class, b, rep);
            if (w) {
                rep.violation(w[0] + ", packet " + hex(b), s, { bytes: Array.from(b) }, w[1]);
                if (!w[1]) break;
            }
        }
        rep.add("traces", n);
        rep.add("transitions", steps);
        if (n % 5 === 0) rep.sample(space.text(s) + n + " packets");
    });
}

/** C11: where an enum can be */
function enumSchemas(thorough) {
    const out = [];
    const { f } = space;
    const { map, variantNames, typeNames, ENDS, NUMBERED } = require("./names");
    const places = {
        plain: { T: [f("e", "E")] },
        optional: { T: [f("e", "E", "?")] },
        array: { T: [f("e", "E", "[]")] },
        nested: { T: [f("a", "uint8"), f("s", "S"), f("z", "uint8")], S: [f("e", "E"), f("q", "uint8")] },
        "in array": { T: [f("s", "S", "[]")], S: [f("e", "E"), f("q", "uint8")] },
        "in optional": { T: [f("s", "S", "?")], S: [f("q", "uint8"), f("e", "E")] },
        "array in nested": { T: [f("s", "S")], S: [f("e", "E", "[]")] },
        "twice": { T: [f("d", "E"), f("s", "S"), f("e", "E")], S: [f("e", "E"), f("q", "uint8")] },
        "deep": { T: [f("s", "S", "[]"), f("z", "uint16")], S: [f("r", "R", "?")], R: [f("q", "uint8"), f("p", "P", "[]")], P: [f("e", "E", "[]"), f("d", "E", "?")] },
        "optional in array": { T: [f("s", "S", "[]")], S: [f("e", "E", "?"), f("q", "uint8")] },
    };
    const put = (n, place, structs, variants = space.variants(n), name = "E") => {
        const s = space.schema(map(Object.entries(structs)), map([[name, variants]]), "T", place);
        s.enum = name;
        s.consumer = (m) => "import { T } from \"" + m + "\";\nexport const values: number[] = [" + variants.map((v) => "T." + name + "." + v).join(", ") + "];\n";
        out.push(s);
    };
    for (let n = 1; n <= 32; ++n) for (const [place, structs] of Object.entries(places)) put(n, place, structs);
    // at the end of every path of markers
    for (let depth = 2; depth <= (thorough ? 5 : 4); ++depth) for (let code = 0; code < 3 ** depth; ++code) for (const n of depth > 3 ? [3, 8, 16, 17, 32] : [1, 2, 3, 8, 9, 16, 17, 24, 32]) {
        const structs = {};
        for (let d = 0, c = code; d < depth; ++d, c = Math.floor(c / 3)) structs[d ? "S" + d : "T"] = [f("q", "uint8"), f("x", d + 1 < depth ? "S" + (d + 1) : "E", space.MODS[c % 3])];
        put(n, "path", structs);
    }
    // any names, for variants and for the enum
    const names = variantNames();
    for (const size of thorough ? [1, 2, 3, 7, 8, 9, 16, 17, 31, 32] : [2, 7, 32]) for (let at = 0; at < names.length; at += size) {
        const some = names.slice(at, at + size);
        put(some.length, "names", Object.values(places)[at % 10], some);
        if (size === 2) put(2, "names", Object.values(places)[(at + 3) % 10], ["Other_", some[0]]);
    }
    for (let at = 0; at < ENDS.length; at += 32) put(ENDS.slice(at, at + 32).length, "names", Object.values(places)[at / 32 % 10], ENDS.slice(at, at + 32));
    // numbers in the names: all others, and some in each notation
    NUMBERED.forEach((p, i) => {
        const numbers = (n, f) => Array.from({ length: n }, (_, k) => p + f(k, n));
        for (const [n, f] of [[32, (k, n) => n - 1 - k], [32, (k) => k + 1], [2, (k) => k + 1], [3, (k) => 2 - k], [8, (k) => (k + 3) % 8], [9, (k) => 8 - k], [16, (k) => 2 ** (15 - k)], [17, (k) => (k * 5) % 17], [8, (k) => "x" + (1 << k).toString(16)],
            [8, (k) => (7 - k).toString(2).padStart(3, "0")], [10, (k) => String(9 - k).padStart(2, "0")], [4, (k) => "_" + (3 - k)], [32, (k) => 100 - k]]) put(n, "names", Object.values(places)[(i + n) % 10], numbers(n, f));
    });
    const sizes = [1, 2, 8, 9, 16, 17, 24, 25, 32];
    typeNames().forEach((name, i) => {
        const n = sizes[i % sizes.length];
        for (const k of new Set([n, 32])) put(k, "names", { T: [f("e", name, space.MODS[i % 3]), f("d", "uint8")] }, space.variants(k), name);
    });
    for (let len = 2; len <= 300; len += len < 66 ? 1 : 39) for (const n of sizes) {
        const name = "En_9um".repeat(60).slice(0, len);
        put(n, "names", { T: [f("e", name, space.MODS[len % 3]), f("d", "uint8")] }, space.variants(n), name);
        put(n, "names", { T: [f("e", "E", space.MODS[len % 3]), f("d", "uint8")] }, space.variants(n).map((v) => name + v));
    }
    return out;
}

/** Words which mean that there is nothing, or the end, as variants of enums of every size */
function wordSchemas(thorough) {
    const { map } = require("./names");
    const words = `none null nil nothing empty zero unknown undefined invalid default unset unused reserved all any every max min count length size len end last first begin start other others
        error ok fail failed success mask bits flags flag value values kind type variant enum number one two true false yes no on off self this missing absent some many mixed custom auto inherit`.split(/\s+/);
    const cased = (w) => [w, w[0].toUpperCase() + w.slice(1), w.toUpperCase()].filter((n) => !space.BUILTINS.includes(n) && n !== "enum" && n !== "struct");
    const enums = [];
    for (const w of words.flatMap(cased)) for (let n = 1; n <= 32; ++n) for (const at of new Set([0, n - 1, n >> 1])) {
        if (at === n >> 1 && n % 8 > 1 && !thorough) continue;
        enums.push(space.variants(n).map((v, i) => i === at ? w : v));
    }
    const out = [];
    for (let at = 0; at < enums.length; at += 60) {
        const some = enums.slice(at, at + 60);
        out.push(space.schema(map([["T", some.map((_, i) => space.f("f" + i, "E" + i + "_", space.MODS[(i + at / 60) % 3]))]]), map(some.map((v, i) => ["E" + i + "_", v])), "T", "words"));
    }
    return out;
}

function judgeWords(m, count) {
    const s = m.spec;
    let what = guarded(() => typesOf(m));
    for (let k = 0; k < 32 && !what; ++k) {
        count();
        what = guarded(() => layout(s, m.class, space.tabled(s, k, false)));
    }
    // an undeclared value in one of the fields
    for (const x of s.structs.T) {
        const n = s.enums[x.type].length;
        for (const wire of [0, 3, 2 ** n, 2 ** n - 1, 2 ** (n - 1) + 1, 256 ** codec.enumWidth(n) - 1]) {
            if (what || wire >= 256 ** codec.enumWidth(n) || s.enums[x.type].some((_, i) => 2 ** i === wire)) continue;
            const v = space.tabled(s, 0, false);
            v[x.name] = x.array ? [wire] : wire;
            count();
            runtime.observed.budget = 10000;
            what = guarded(() => m.class.read(buffer(codec.encode(s, v))) === null ? null : "undeclared value " + wire + " is accepted for " + x.type);
        }
    }
    return what;
}

function enumValue(s, v) {
    const q = 7;
    const type = (t) => t === s.enum ? v : t === "uint8" || t === "uint16" ? q : Object.fromEntries(s.structs[t].map((x) => [x.name, x.array ? [type(x.type)] : type(x.type)]));
    return type("T");
}

/** the wire values to try for an enum of n variants */
function wireValues(n, thorough) {
    if (n <= 16) return Array.from({ length: n <= 8 ? 256 : 65536 }, (_, i) => i);
    const out = new Set([0, 2 ** 32 - 1]);
    for (let i = 0; i < 32; ++i) {
        for (const d of [-2, -1, 0, 1, 2]) out.add(2 ** i + d);
        out.add(2 ** 32 - 1 - 2 ** i);
        for (let j = 0; j < i; ++j) {
            out.add(2 ** i + 2 ** j);
            out.add(2 ** i - 2 ** j);
            for (let k = 0; k < j; ++k) out.add(2 ** i + 2 ** j + 2 ** k);
        }
    }
    if (thorough) for (let v = 0; v < 1 << 17; ++v) out.add(v);
    return [...out].filter((v) => v >= 0 && v < 2 ** 32);
}

/** those next to the declared ones */
function fewValues(n) {
    const out = new Set([0, 3, 2 ** n, 2 ** n - 1, 256 ** codec.enumWidth(n) - 1]);
    for (let i = 0; i < n; ++i) for (const d of [0, 1]) out.add(2 ** i + d);
    return [...out].filter((v) => v < 256 ** codec.enumWidth(n));
}

function judgeEnum(s, cls, wire, rep) {
    const n = s.enums[s.enum].length;
    const v = enumValue(s, wire);
    const bytes = codec.encode(s, v);
    const declared = s.enums[s.enum].some((_, i) => 2 ** i === wire);
    if (declared) {
        const got = instance(s, cls, v).write();
        if (!same(got, buffer(bytes))) return "variant value " + wire + " is written as " + hex(got) + " instead of " + hex(bytes);
    }
    runtime.observed.budget = 1000;
    const back = cls.read(buffer(bytes));
    if (declared) {
        if (back === null) return "variant value " + wire + " is rejected";
        const d = codec.differ(s, "T", back, v, "T");
        if (d) return "variant value " + wire + " is read differently: " + d;
        rep.outcome("declared values");
    } else {
        if (back !== null) return "undeclared value " + wire + " is accepted with " + n + " variants";
        rep.outcome("undeclared values");
    }
    return null;
}

/** an undeclared value at one place of the arrays */
function judgeItems(s, cls, len, at, wire) {
    const n = s.enums[s.enum].length;
    const make = (bad) => {
        let k = 0;
        const item = () => 2 ** (k++ % n);
        const type = (t, wrong) => {
            if (t === s.enum) return wrong ? wire : item();
            if (s.structs[t]) return Object.fromEntries(s.structs[t].map((x) => [x.name, x.array ? Array.from({ length: len }, (_, i) => type(x.type, wrong && i === at)) : type(x.type, wrong)]));
            return 7;
        };
        return codec.encode(s, type("T", bad));
    };
    runtime.observed.budget = 100000;
    if (cls.read(buffer(make(false))) === null) return "an array of " + len + " variants is rejected";
    if (cls.read(buffer(make(true))) !== null) return "undeclared value " + wire + " is accepted as item " + at + " of " + len;
    return null;
}

function enums(exe, specs, rep, thorough) {
    modules(exe, specs, rep, { check: true }, (m) => {
        const s = m.spec;
        if (s.family === "words") {
            if (m.status !== 0 || m.broken) return rep.violation(m.broken || "it is not accepted: " + m.message, s, {});
            rep.add("states", Object.keys(s.enums).length);
            const what = judgeWords(m, () => rep.add("traces"));
            if (what) rep.violation(what.slice(0, 300), s, {});
            return;
        }
        const n = s.enums[s.enum].length;
        if (m.status !== 0) return rep.violation("an enum with " + n + " variants is not accepted: " + m.message, s, {});
        if (m.broken) return rep.violation(m.broken, s, {});
        rep.add("states");
        if (m.consumerErrors.length) rep.violation("the variants cannot be used: " + m.consumerErrors[0], s, {});
        m.consumer.values.forEach((v, i) => {
            if (v !== 2 ** i) rep.violation("variant " + i + " has the value " + v + " instead of " + 2 ** i, s, { variant: i });
        });
        let count = 0;
        for (const wire of s.family === "path" || s.family === "names" ? fewValues(n) : wireValues(n, thorough)) {
            ++count;
            const what = guarded(() => judgeEnum(s, m.class, wire, rep));
            if (what) { rep.violation(what, s, { wire }); break; }
        }
        // a wrong item at every place of an array of right ones
        if (/array|deep/.test(s.family)) for (let len = 2; len <= 6; ++len) for (let at = 0; at < len; ++at) {
            for (const wire of [0, 2 ** (n - 1) + 1, n > 1 ? 3 : 5, n < 32 ? 2 ** n : 2 ** 32 - 1].filter((w) => !s.enums[s.enum].some((_, i) => 2 ** i === w) && w < 256 ** codec.enumWidth(n))) {
                ++count;
                const what = guarded(() => judgeItems(s, m.class, len, at, wire));
                if (what) { rep.violation(what, s, { len, at, wire }); len = 7; break; }
            }
        }
        // all variants in one array, each next to each other
        if (s.family === "array") {
            const v = { e: s.enums[s.enum].map((_, i) => 2 ** i) };
            v.e.push(...v.e.slice().reverse());
            const what = guarded(() => layout(s, m.class, v));
            if (what) rep.violation(what, s, {});
        }
        rep.add("traces", count);
        rep.add("transitions", n);
        rep.sample(s.family + " enum of " + n + " variants, " + count + " wire values");
    });
}

/** TypeScript gives up on functions of several thousand statements */
const tooLarge = (m) => m.errors.some((e) => e.startsWith("TS2563")) && space.breadth(m.spec) > 3500;

/** C12: null or what is wrong with the types of a module */
function typesOf(m, exe) {
    const s = m.spec;
    const errors = tooLarge(m) ? m.errors.filter((e) => !e.startsWith("TS2563")) : m.errors;
    if (errors.length) return "it does not compile: " + errors[0];
    const checker = m.program.getTypeChecker();
    const mod = checker.getSymbolAtLocation(m.file);
    const exported = mod ? checker.getExportsOfModule(mod) : [];
    if (exported.length !== 1 || exported[0].name !== s.export) return "it exports " + exported.map((x) => x.name).join(", ");
    const sym = exported[0];
    if (!(sym.flags & ts.SymbolFlags.Class)) return "the export is not a class";
    const str = (t) => checker.typeToString(t, m.file, ts.TypeFormatFlags.NoTruncation);
    const want = (x) => {
        const base = x.type === "string" ? "string" : codec.WIDTH[x.type] ? "number" : s.export + "." + x.type;
        return base + (x.array ? "[]" : "") + (x.optional ? " | undefined" : "");
    };
    const listed = (xs) => xs.map((x) => x.name + ": " + want(x)).join(", ");
    // class
    const stat = checker.getTypeOfSymbolAtLocation(sym, m.file);
    const ctors = stat.getConstructSignatures();
    if (ctors.length !== 1) return "the class has " + ctors.length + " constructors";
    const limits = [...sym.declarations.filter(ts.isClassDeclaration), ctors[0].declaration].filter(Boolean).reduce((n, d) => n | ts.getCombinedModifierFlags(d), 0);
    if (limits & (ts.ModifierFlags.Abstract | ts.ModifierFlags.Private | ts.ModifierFlags.Protected)) return "the class cannot be constructed";
    if (ctors[0].typeParameters && ctors[0].typeParameters.length) return "the class has type parameters";
    const params = ctors[0].getParameters().map((p) => p.name + ": " + str(checker.getTypeOfSymbolAtLocation(p, m.file)));
    const fields = s.structs[s.export];
    if (params.join(", ") !== listed(fields)) return "the constructor takes (" + params.join(", ") + ") instead of (" + listed(fields) + ")";
    const inst = checker.getDeclaredTypeOfSymbol(sym);
    const props = checker.getPropertiesOfType(inst).filter((p) => p.name !== "write");
    const got = props.map((p) => p.name + ": " + str(checker.getTypeOfSymbolAtLocation(p, m.file))).join(", ");
    if (got !== listed(fields)) return "the class has the properties (" + got + ") instead of (" + listed(fields) + ")";
    const fixed = (ps) => ps.find((p) => p.declarations.some((d) => ts.getCombinedModifierFlags(d) & (ts.ModifierFlags.Readonly | ts.ModifierFlags.Private | ts.ModifierFlags.Protected)));
    if (fixed(props)) return "property " + fixed(props).name + " cannot be used freely";
    const call = (t, name) => {
        const p = t.getProperty(name);
        if (!p) return "missing";
        const sig = checker.getTypeOfSymbolAtLocation(p, m.file).getCallSignatures();
        if (sig.length !== 1) return "not a function";
        return sig[0].getParameters().map((q) => str(checker.getTypeOfSymbolAtLocation(q, m.file))).join(", ") + " => " + str(sig[0].getReturnType());
    };
    if (call(stat, "read") !== "ArrayBuffer => " + s.export + " | null") return "read is " + call(stat, "read");
    if (call(inst, "write") !== "ArrayBuffer | undefined => ArrayBuffer") return "write is " + call(inst, "write");
    // namespace
    const inside = checker.getExportsOfModule(sym).filter((x) => x.flags & (ts.SymbolFlags.Interface | ts.SymbolFlags.Enum | ts.SymbolFlags.TypeAlias | ts.SymbolFlags.Class | ts.SymbolFlags.Namespace));
    const names = inside.map((x) => x.name).sort();
    const wanted = [...Object.keys(s.enums), ...Object.keys(s.structs).filter((n) => n !== s.export)].sort();
    if (names.join() !== wanted.join()) return "the namespace has " + names.join(", ") + " instead of " + wanted.join(", ");
    for (const x of inside) {
        if (s.enums[x.name]) {
            if (!(x.flags & ts.SymbolFlags.ConstEnum)) return x.name + " is not a const enum";
            const members = x.declarations.flatMap((d) => d.members.map((q) => q.name.getText() + " = " + checker.getConstantValue(q)));
            const w = s.enums[x.name].map((v, i) => v + " = " + 2 ** i);
            if (members.join() !== w.join()) return x.name + " has the members " + members.join(", ");
        } else {
            if (!(x.flags & ts.SymbolFlags.Interface)) return x.name + " is not an interface";
            const ps = checker.getPropertiesOfType(checker.getDeclaredTypeOfSymbol(x));
            const g = ps.map((p) => {
                const opt = (p.flags & ts.SymbolFlags.Optional) !== 0;
                return p.name + (opt ? "?" : "") + ": " + str(checker.getTypeOfSymbolAtLocation(p, m.file));
            }).join(", ");
            const w = s.structs[x.name].map((p) => p.name + (p.optional ? "?" : "") + ": " + want(p)).join(", ");
            if (fixed(ps)) return "property " + fixed(ps).name + " of " + x.name + " cannot be used freely";
            if (g !== w) return "interface " + x.name + " has (" + g + ") instead of (" + w + ")";
        }
    }
    return null;
}

function types(exe, specs, rep, thorough) {
    modules(exe, specs, rep, { check: true, emit: false }, (m) => {
        if (m.status !== 0) return;
        rep.add("traces");
        // the types and the members which are compared
        const types = [...Object.values(m.spec.structs), ...Object.values(m.spec.enums)];
        rep.add("states", types.length);
        rep.add("transitions", types.reduce((n, x) => n + x.length, 0));
        const what = guarded(() => typesOf(m, exe));
        if (what) rep.violation(what, m.spec, {});
        else if (tooLarge(m)) rep.violation(m.errors[0], m.spec, {}, "too-large-for-typescript");
        else rep.sample(space.text(m.spec).slice(0, 2000));
    });
}

/** C12 also wants types which are not used to be left out */
function withUnused(s) {
    const extra = "UnusedE: enum { A, B }\nUnusedS: struct { e: UnusedE[], s: string }\n";
    return Object.assign({}, s, { text: extra + space.text(s), family: s.family + " and unused types" });
}

function specs(prop, thorough) {
    if (prop === "C11") return [...enumSchemas(thorough), ...wordSchemas(thorough)];
    const all = [...space.all(thorough), ...space.trees(thorough, prop === "C10" ? 5 : thorough ? 7 : 6)];
    if (prop !== "C10") all.push(...space.huge(thorough));
    // of these every seventh is enough for every packet
    if (prop !== "C10" || thorough) all.push(...space.rows(prop === "C12" && !thorough ? 2 : 3));
    else all.push(...space.rows(2));
    if ((prop === "C08" || prop === "C09") || thorough && prop === "C12") all.push(...space.triples(thorough));
    if (prop === "C10" && !thorough) return all.filter((s, i) => s.family !== "many types" || i % 7 === 0);
    if (prop === "C08" || prop === "C09") all.push(...require("./names").fields(thorough));
    if (prop === "C12") all.push(...all.filter((s) => s.family === "one field" || s.family === "graph").map(withUnused), ...require("./names").packed(thorough), ...require("./names").long());
    return all;
}

function run(prop, exe, shard, shards, thorough, at) {
    const rep = new Report();
    rep.at = at;
    if (prop === "C17") {
        require("./names").run(exe, shard, shards, thorough, rep, { modules, roundTrip, layout, guarded, typesOf });
    } else {
        const mine = specs(prop, thorough).filter((_, i) => i % shards === shard);
        if (prop === "C08" || prop === "C09") valueProps(prop, exe, mine, rep, thorough);
        else if (prop === "C10") hostile(exe, mine, rep, thorough);
        else if (prop === "C11") enums(exe, mine, rep, thorough);
        else if (prop === "C12") types(exe, mine, rep, thorough);
    }
    return rep;
}

/** Re-evaluates one violation */
function replay(prop, exe, v) {
    const rep = new Report();
    if (prop === "C17") return require("./names").replay(exe, v, { modules, roundTrip, layout, guarded, typesOf });
    let what = null;
    const s = v.spec;
    // JSON gives objects a prototype
    s.structs = require("./names").map(Object.entries(s.structs));
    s.enums = require("./names").map(Object.entries(s.enums));
    modules(exe, [s], rep, { check: true }, (m) => {
        if (m.status !== 0) what = m.message;
        else if (m.broken) what = m.broken;
        else if (prop === "C12") what = typesOf(m, exe) || (tooLarge(m) ? m.errors[0] : null);
        else if (prop === "C11" && s.family === "words") what = judgeWords(m, () => {});
        else if (prop === "C11") what = v.data.wire === undefined ? v.what : v.data.len ? guarded(() => judgeItems(s, m.class, v.data.len, v.data.at, v.data.wire)) : guarded(() => judgeEnum(s, m.class, v.data.wire, rep));
        else if (prop === "C10") what = (receive(s, m.class, Uint8Array.from(v.data.bytes), rep) || [null])[0];
        else if (v.data.choices) {
            let i = 0;
            const value = space.value(s, { choose: () => v.data.choices[i++] });
            what = guarded(() => (prop === "C08" ? roundTrip : layout)(s, m.class, value, rep));
        } else if (v.data.round !== undefined) {
            what = guarded(() => (prop === "C08" ? roundTrip : layout)(s, m.class, space.tabled(s, v.data.round, v.data.apart), rep));
        } else if (v.data.level !== undefined || v.data.chars !== undefined) {
            const value = v.data.chars === undefined ? space.sized(s, v.data.level, v.data.len) : space.stringy(s, v.data.chars);
            what = guarded(() => (prop === "C08" ? roundTrip : layout)(s, m.class, value, rep));
        } else if (v.data.lengths) {
            const value = space.value(s, { choose: () => 0 }, v.data.lengths);
            what = guarded(() => (prop === "C08" ? roundTrip : layout)(s, m.class, value, rep));
        } else what = v.what;
    });
    return what;
}

module.exports = { run, replay, Report, modules, roundTrip, layout, guarded, typesOf };
