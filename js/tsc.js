"use strict";
// Generated modules through the TypeScript compiler, many per program.
const path = require("path");
const { spawnSync } = require("child_process");
const TS = "/opt/veriftools/node/node_modules/typescript";
const ts = require(TS);
const runtime = require("./runtime");

const OPTIONS = {
    target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10,
    lib: ["lib.es2020.d.ts"], strict: true, types: [], skipLibCheck: true, skipDefaultLibCheck: true, noEmitOnError: false,
};
const LIB = path.join(TS, "lib");
const cache = new Map();

/** Schemas to modules: [{status, text}], status 0 for a module */
function compileSchemas(exe, texts) {
    const parts = [];
    for (const t of texts) {
        const b = Buffer.from(t, "utf8");
        const n = Buffer.alloc(4);
        n.writeUInt32LE(b.length);
        parts.push(n, b);
    }
    const p = spawnSync(exe, ["compile"], { input: Buffer.concat(parts), maxBuffer: 1 << 30 });
    if (p.status === null || p.status === 78) {
        // the compiler crashes or does not end on one of them
        if (texts.length === 1) return [{ status: 4, text: "the compiler crashes or does not end" }];
        const half = texts.length >> 1;
        return [...compileSchemas(exe, texts.slice(0, half)), ...compileSchemas(exe, texts.slice(half))];
    }
    if (p.status !== 0) throw new Error("compile service ended with " + p.status + " " + p.stderr);
    const out = [];
    let at = 0;
    for (let i = 0; i < texts.length; ++i) {
        const len = p.stdout.readUInt32LE(at + 1);
        out.push({ status: p.stdout[at], text: p.stdout.toString("utf8", at + 5, at + 5 + len) });
        at += 5 + len;
    }
    return out;
}

/** files: {name: text}, without extension. Returns per file {js, errors}, and the program */
function program(files) {
    const text = new Map(Object.entries(files).map(([k, v]) => ["/m/" + k + ".ts", v]));
    text.set("/m/node_modules/packet/index.d.ts", runtime.TYPES);
    const js = new Map();
    const lib = (f) => {
        if (!cache.has(f)) {
            const t = ts.sys.readFile(f);
            cache.set(f, t === undefined ? undefined : ts.createSourceFile(f, t, OPTIONS.target, true));
        }
        return cache.get(f);
    };
    const host = {
        fileExists: (f) => text.has(f) || (f.startsWith(LIB) && ts.sys.fileExists(f)),
        readFile: (f) => text.has(f) ? text.get(f) : ts.sys.readFile(f),
        getSourceFile: (f) => text.has(f) ? ts.createSourceFile(f, text.get(f), OPTIONS.target, true) : f.startsWith(LIB) ? lib(f) : undefined,
        getDefaultLibFileName: () => path.join(LIB, "lib.es2020.d.ts"),
        getDefaultLibLocation: () => LIB,
        writeFile: (f, t) => js.set(f, t),
        getCurrentDirectory: () => "/m", getCanonicalFileName: (f) => f, useCaseSensitiveFileNames: () => true, getNewLine: () => "\n",
        directoryExists: (d) => d === "/m" || d === "/m/node_modules" || d === "/m/node_modules/packet" || d === "/",
        getDirectories: () => [],
    };
    const p = ts.createProgram(Object.keys(files).map((k) => "/m/" + k + ".ts"), OPTIONS, host);
    const out = {};
    for (const k of Object.keys(files)) {
        const f = p.getSourceFile("/m/" + k + ".ts");
        out[k] = { file: f, errors: [] };
    }
    return {
        out, program: p,
        check() {
            for (const k of Object.keys(files)) {
                const f = out[k].file;
                out[k].errors = [...p.getSyntacticDiagnostics(f), ...p.getSemanticDiagnostics(f)].map(
                    (d) => "TS" + d.code + " " + ts.flattenDiagnosticMessageText(d.messageText, " "));
            }
        },
        emit() {
            for (const k of Object.keys(files)) {
                p.emit(out[k].file);
                out[k].js = js.get("/m/" + k + ".js");
            }
        },
    };
}

/** new Array(n) reserves memory for millions of items; the count comes from the packet */
const make = (args) => args.length === 1 && args[0] > 10000 && args[0] < 2 ** 32 ? [] : new Array(...args);
const LazyArray = new Proxy(Array, { construct: (_, args) => make(args), apply: (_, __, args) => make(args) });

/** Runs the emitted code of a module */
function load(js, others = {}) {
    const exports = Object.create(null);
    new Function("Array", "return function (exports, require) {" + js + "\n};")(LazyArray)(exports, (name) => {
        if (name === "packet") return runtime;
        if (others[name]) return others[name];
        throw new Error("unexpected import of " + name);
    });
    return exports;
}

module.exports = { ts, compileSchemas, program, load };
