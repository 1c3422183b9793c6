"use strict";
// A stand-in for the packet runtime library: little-endian, and a read past the
// end fails the reader. It also observes what the generated code does.

class Budget extends Error {}

const observed = { reader: null, budget: Infinity };

class Reader {
    constructor(data) {
        this.view = new DataView(data);
        this.pos = 0;
        this.failed = false;
        this.reads = 0;
        observed.reader = this;
    }
    take(n) {
        if (++this.reads > observed.budget) throw new Budget("too many reads");
        if (this.failed || this.pos + n > this.view.byteLength) {
            this.failed = true;
            return -1;
        }
        this.pos += n;
        return this.pos - n;
    }
    read_uint8() { const p = this.take(1); return p < 0 ? 0 : this.view.getUint8(p); }
    read_uint16() { const p = this.take(2); return p < 0 ? 0 : this.view.getUint16(p, true); }
    read_uint32() { const p = this.take(4); return p < 0 ? 0 : this.view.getUint32(p, true); }
    read_int8() { const p = this.take(1); return p < 0 ? 0 : this.view.getInt8(p); }
    read_int16() { const p = this.take(2); return p < 0 ? 0 : this.view.getInt16(p, true); }
    read_int32() { const p = this.take(4); return p < 0 ? 0 : this.view.getInt32(p, true); }
    read_float() { const p = this.take(4); return p < 0 ? 0 : this.view.getFloat32(p, true); }
    read_string(len) {
        const p = this.take(len);
        if (p < 0) return "";
        let s = "";
        for (let i = 0; i < len; ++i) s += String.fromCharCode(this.view.getUint8(p + i));
        return s;
    }
}

class Writer {
    constructor(buffer) {
        this.buffer = buffer || new ArrayBuffer(64);
        this.view = new DataView(this.buffer);
        this.pos = 0;
    }
    room(n) {
        if (this.pos + n > this.buffer.byteLength) {
            const bigger = new ArrayBuffer(2 * (this.pos + n));
            new Uint8Array(bigger).set(new Uint8Array(this.buffer, 0, this.pos));
            this.buffer = bigger;
            this.view = new DataView(bigger);
        }
        this.pos += n;
        return this.pos - n;
    }
    write_uint8(v) { const p = this.room(1); this.view.setUint8(p, v); }
    write_uint16(v) { const p = this.room(2); this.view.setUint16(p, v, true); }
    write_uint32(v) { const p = this.room(4); this.view.setUint32(p, v, true); }
    write_int8(v) { const p = this.room(1); this.view.setInt8(p, v); }
    write_int16(v) { const p = this.room(2); this.view.setInt16(p, v, true); }
    write_int32(v) { const p = this.room(4); this.view.setInt32(p, v, true); }
    write_float(v) { const p = this.room(4); this.view.setFloat32(p, v, true); }
    write_string(s) {
        const p = this.room(s.length);
        for (let i = 0; i < s.length; ++i) this.view.setUint8(p + i, s.charCodeAt(i));
    }
    finish() { return this.buffer.slice(0, this.pos); }
}

const TYPES = `
export class Reader {
    constructor(data: ArrayBuffer);
    failed: boolean;
    read_uint8(): number; read_uint16(): number; read_uint32(): number;
    read_int8(): number; read_int16(): number; read_int32(): number;
    read_float(): number; read_string(len: number): string;
}
export class Writer {
    constructor(buffer?: ArrayBuffer);
    write_uint8(v: number): void; write_uint16(v: number): void; write_uint32(v: number): void;
    write_int8(v: number): void; write_int16(v: number): void; write_int32(v: number): void;
    write_float(v: number): void; write_string(v: string): void;
    finish(): ArrayBuffer;
}
`;

module.exports = { Reader, Writer, Budget, observed, TYPES };
