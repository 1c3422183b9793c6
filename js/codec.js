"use strict";
// The reference: the wire layout as the properties state it, written
// independently of the generator.

class Bytes {
    constructor() { this.b = []; }
    u(n, width) { for (let i = 0; i < width; ++i) this.b.push(Math.floor(n / 2 ** (8 * i)) % 256); }
    done() { return Uint8Array.from(this.b); }
}

const WIDTH = { __proto__: null, uint8: 1, uint16: 2, uint32: 4, int8: 1, int16: 2, int32: 4, float: 4 };
const enumWidth = (n) => n <= 8 ? 1 : n <= 16 ? 2 : 4;

function encodeType(s, type, v, out) {
    if (type === "string") {
        out.u(v.length, 4);
        for (let i = 0; i < v.length; ++i) out.b.push(v.charCodeAt(i));
    } else if (type === "float") {
        const d = new DataView(new ArrayBuffer(4));
        d.setFloat32(0, v, true);
        for (let i = 0; i < 4; ++i) out.b.push(d.getUint8(i));
    } else if (WIDTH[type]) {
        out.u(v < 0 ? v + 2 ** (8 * WIDTH[type]) : v, WIDTH[type]);
    } else if (s.enums[type]) {
        out.u(v, enumWidth(s.enums[type].length));
    } else {
        for (const f of s.structs[type]) encodeField(s, f, v[f.name], out);
    }
}

function encodeField(s, f, v, out) {
    if (f.optional) {
        out.u(v === undefined ? 0 : 1, 1);
        if (v === undefined) return;
    }
    if (f.array) {
        out.u(v.length, 4);
        for (const x of v) encodeType(s, f.type, x, out);
    } else {
        encodeType(s, f.type, v, out);
    }
}

function encode(s, v) {
    const out = new Bytes();
    encodeType(s, s.export, v, out);
    return out.done();
}

class Bad extends Error {}
class Skip extends Error {}

/** {ok: value, used} or {bad: reason}; `vague` if the layout does not say what a byte means */
function decode(s, bytes) {
    const d = new DataView(bytes.buffer, bytes.byteOffset, bytes.byteLength);
    let pos = 0, vague = false, huge = false;
    const need = (n) => {
        if (pos + n > bytes.length) throw new Bad("ends early");
        pos += n;
        return pos - n;
    };
    const type = (t) => {
        switch (t) {
            case "uint8": return d.getUint8(need(1));
            case "uint16": return d.getUint16(need(2), true);
            case "uint32": return d.getUint32(need(4), true);
            case "int8": return d.getInt8(need(1));
            case "int16": return d.getInt16(need(2), true);
            case "int32": return d.getInt32(need(4), true);
            case "float": return d.getFloat32(need(4), true);
            case "string": {
                const n = d.getUint32(need(4), true);
                const p = need(n);
                let r = "";
                for (let i = 0; i < n; ++i) r += String.fromCharCode(bytes[p + i]);
                return r;
            }
        }
        const e = s.enums[t];
        if (e) {
            const w = enumWidth(e.length);
            const p = need(w);
            const v = w === 1 ? d.getUint8(p) : w === 2 ? d.getUint16(p, true) : d.getUint32(p, true);
            for (let i = 0; i < e.length; ++i) if (v === 2 ** i) return v;
            throw new Bad("undeclared enum value " + v);
        }
        const r = Object.create(null);
        for (const f of s.structs[t]) r[f.name] = field(f);
        return r;
    };
    const field = (f) => {
        if (f.optional) {
            const p = d.getUint8(need(1));
            if (p > 1) vague = true;
            if (p === 0) return undefined;
        }
        if (!f.array) return type(f.type);
        const n = d.getUint32(need(4), true);
        // no item is shorter than minWidth, so this ends early, but items before the end count
        if (minWidth(s, f.type) > 0) {
            if (n * minWidth(s, f.type) > bytes.length - pos) huge = true;
        } else if (n > 10000) {
            // the generated code cannot be stopped in a loop without reads
            throw new Skip();
        }
        const r = [];
        for (let i = 0; i < n; ++i) r.push(type(f.type));
        return r;
    };
    try {
        const v = type(s.export);
        return { ok: v, used: pos, vague };
    } catch (e) {
        if (e instanceof Skip) return { skip: true };
        if (!(e instanceof Bad)) throw e;
        return { bad: e.message, vague, huge };
    }
}

function minWidth(s, t) {
    if (t === "string") return 4;
    if (WIDTH[t]) return WIDTH[t];
    if (s.enums[t]) return enumWidth(s.enums[t].length);
    let n = 0;
    for (const f of s.structs[t]) n += f.optional ? 1 : f.array ? 4 : minWidth(s, f.type);
    return n;
}

/** First difference between two values of a type, or null */
function differ(s, type, a, b, at) {
    if (s.structs[type]) {
        if (a === null || typeof a !== "object") return at + " is " + String(a);
        for (const f of s.structs[type]) {
            const x = a[f.name], y = b[f.name], p = at + "." + f.name;
            if (f.optional && y === undefined) {
                if (x !== undefined) return p + " is " + show(x) + " instead of absent";
            } else if (f.array) {
                if (!Array.isArray(x)) return p + " is " + show(x) + " instead of an array";
                if (x.length !== y.length) return p + " has " + x.length + " items instead of " + y.length;
                for (let i = 0; i < y.length; ++i) {
                    const r = differ(s, f.type, x[i], y[i], p + "[" + i + "]");
                    if (r) return r;
                }
            } else {
                const r = differ(s, f.type, x, y, p);
                if (r) return r;
            }
        }
        return null;
    }
    return Object.is(a, b) ? null : at + " is " + show(a) + " instead of " + show(b);
}

function show(v) {
    const t = JSON.stringify(v, (k, x) => typeof x === "number" && !Number.isFinite(x) ? String(x) : Object.is(x, -0) ? "-0" : x === undefined ? "<absent>" : x);
    return t === undefined ? String(v) : t.length > 300 ? t.slice(0, 300) + "..." : t;
}

module.exports = { encode, decode, differ, show, minWidth, enumWidth, WIDTH };
