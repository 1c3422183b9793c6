"use strict";
/** Runs f once per choice sequence with at most `bound` choices other than 0.
    Counts the runs, the distinct prefixes (nodes) and the choices made (steps). */
function explore(bound, f) {
    const c = { prefix: [], trace: [], choose(n) {
        const i = this.trace.length;
        const x = i < this.prefix.length ? this.prefix[i] : 0;
        if (x >= n) throw new Error("diverged");
        this.trace.push([x, n]);
        return x;
    } };
    const count = { runs: 0, nodes: 1, steps: 0 };
    for (;;) {
        c.trace = [];
        ++count.runs;
        const stop = f(c) === false;
        count.steps += c.trace.length;
        count.nodes += c.trace.length - Math.max(0, c.prefix.length - 1);
        if (stop) return count;
        let i = c.trace.length - 1;
        for (; i >= 0; --i) {
            const [x, n] = c.trace[i];
            if (x + 1 >= n) continue;
            let used = 0;
            for (let j = 0; j < i; ++j) used += c.trace[j][0] > 0 ? 1 : 0;
            if (used + 1 <= bound) break;
        }
        if (i < 0) return count;
        c.prefix = c.trace.slice(0, i + 1).map(([x]) => x);
        ++c.prefix[i];
    }
}
module.exports = { explore };
