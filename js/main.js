"use strict";
// main.js PROPERTY TIER MC-PROGRAM: explores and prints a report
const { Worker, isMainThread, workerData, parentPort } = require("worker_threads");
const SHARDS = 8;

if (!isMainThread) {
    const { prop, thorough, exe, shard } = workerData;
    const { text } = require("./space");
    const rep = require("./props").run(prop, exe, shard, SHARDS, thorough, (s) => parentPort.postMessage({ at: s && { spec: JSON.parse(JSON.stringify(s)), input: s.text || text(s) } }));
    // functions do not survive the way to the main thread
    parentPort.postMessage(JSON.parse(JSON.stringify(rep)));
} else if (process.argv[2] === "replay") {
    const v = JSON.parse(require("fs").readFileSync(0, "utf8"));
    console.log(JSON.stringify({ what: require("./props").replay(process.argv[3], process.argv[4], v) }));
} else {
    const [, , prop, tier, exe] = process.argv;
    const total = { counts: {}, outcomes: {}, samples: [], violations: [], findings: {}, assumptions: ["The packet runtime is replaced by js/runtime.js."] };
    let left = SHARDS;
    for (let shard = 0; shard < SHARDS; ++shard) {
        const w = new Worker(__filename, { workerData: { prop, thorough: tier === "thorough", exe, shard }, resourceLimits: { maxOldGenerationSizeMb: 3000, stackSizeMb: 16 } });
        const now = { at: null, since: 0 };
        const stop = (what) => {
            const v = Object.assign({ what, data: {} }, now.at);
            process.stdout.write(JSON.stringify(Object.assign(total, { findings: Object.values(total.findings), violations: [v] })) + "\n", () => process.exit(0));
        };
        w.on("error", (e) => {
            if (e.code === "ERR_WORKER_OUT_OF_MEMORY" && now.at) return stop("the generated code needs too much memory");
            console.error(e);
            process.exit(3);
        });
        // generated code which does not end
        setInterval(() => {
            if (now.at && Date.now() - now.since > 100000) stop("the generated code does not end");
        }, 5000).unref();
        w.on("message", (r) => {
            if (r.at !== undefined) {
                now.at = r.at;
                now.since = Date.now();
                return;
            }
            for (const kind of ["counts", "outcomes"]) for (const [k, v] of Object.entries(r[kind])) total[kind][k] = (total[kind][k] || 0) + v;
            total.samples.push(...r.samples);
            total.violations.push(...r.violations);
            for (const [k, v] of Object.entries(r.findings)) total.findings[k] = total.findings[k] || v;
            if (--left === 0) {
                total.samples = total.samples.slice(0, 8);
                total.violations.sort((a, b) => a.input.length - b.input.length);
                total.findings = Object.values(total.findings);
                process.stdout.write(JSON.stringify(total) + "\n", () => process.exit(0));
            }
        });
    }
}
