#!/usr/bin/env python3
"""Works with the planted bugs of /verif/seeded (no check uses this).

confirm ID...  in a scratch copy: applies, builds, tests, runs the demonstration with and without
try ID... [--all]  applies to /repo, runs the check of its property (or all checks), undoes it
table          rewrites the table of all of them at the end of DESIGN.md
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
REPO = "/repo"
COPY = "/tmp/seed-copy"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=COPY + "/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def confirm(ids):
    if os.path.exists(COPY):
        shutil.rmtree(COPY)
    shutil.copytree(REPO, COPY, symlinks=True)
    bad = []
    try:
        sh(["cargo", "build", "--offline", "--locked"], COPY)
        clean = {}
        for i in ids:
            # another place, as in the final check
            d = "/tmp/seed-demo"
            if os.path.exists(d):
                shutil.rmtree(d)
            shutil.copytree(os.path.join(SEEDED, i), d)
            clean[i] = sh(["bash", d + "/demo.sh"], COPY, timeout=300)
        for i in ids:
            d = "/tmp/seed-demo"
            shutil.rmtree(d)
            shutil.copytree(os.path.join(SEEDED, i), d)
            p = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], COPY)
            b = sh(["cargo", "build", "--offline", "--locked"], COPY)
            t = sh(["cargo", "test", "--workspace", "--all-targets", "--offline", "--locked"], COPY)
            x = sh(["bash", d + "/demo.sh"], COPY, timeout=300)
            passed = sum(int(n) for n in __import__("re").findall(r"(\d+) passed", t.stdout))
            measured = t.stdout.count("test result: ok")
            ok = p.returncode == 0 and b.returncode == 0 and t.returncode == 0 and clean[i].returncode == 0 and x.returncode != 0
            print("%s %s: apply %d build %d tests %d (%d passed, %d suites), demo clean %d patched %d" % (
                "ok " if ok else "BAD", i, p.returncode, b.returncode, t.returncode, passed, measured, clean[i].returncode, x.returncode), flush=True)
            if not ok:
                bad.append(i)
                print((p.stdout + (b.stdout if b.returncode else "") + (t.stdout[-3000:] if t.returncode else "") + "\n--clean:\n" + clean[i].stdout[-1500:] + "\n--patched:\n" + x.stdout[-1500:]))
            else:
                print("    " + x.stdout.strip()[-300:].replace("\n", "\n    "))
            sh(["git", "checkout", "--", "."], COPY)
    finally:
        shutil.rmtree(COPY)
        shutil.rmtree("/tmp/seed-demo", ignore_errors=True)
    return 1 if bad else 0


def attempt(ids, every):
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        checks = [c["property"] for c in json.load(f)["checks"]]
    for i in ids:
        with open(os.path.join(SEEDED, i, "meta.json")) as f:
            prop = json.load(f)["property"]
        if subprocess.run(["git", "-C", REPO, "apply", os.path.join(SEEDED, i, "patch.diff")]).returncode:
            print("BAD %s does not apply" % i)
            continue
        try:
            for p in [prop] + [c for c in checks if c != prop] if every else [prop]:
                t = time.time()
                r = subprocess.run(["python3", "check.py", p, "quick"], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                caught = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
                print("%s %s by %s (exit %d, %.0f s)" % ("CAUGHT" if caught else "missed" if r.returncode == 0 else "ERROR ", i, p, r.returncode, time.time() - t), flush=True)
                for line in [x for x in r.stdout.splitlines() if x.startswith("violated")][:1] if caught else r.stdout.splitlines()[-5:] if r.returncode not in (0, 1) else []:
                    print("    " + line[:300])
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "--", "."])


def table():
    path = os.path.join(HERE, "DESIGN.md")
    mark = "<!-- table: written by tools/seeded.py table -->\n"
    with open(path) as f:
        text = f.read()
    rows = ["", "| Bug | Needs | Breaks |", "|---|---|---|"]
    for i in sorted(os.listdir(SEEDED)):
        with open(os.path.join(SEEDED, i, "meta.json")) as f:
            m = json.load(f)
        rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
    with open(path, "w") as f:
        f.write(text[:text.index(mark) + len(mark)] + "\n".join(rows) + "\n")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "table":
        sys.exit(table())
    ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    sys.exit(confirm(ids) if sys.argv[1] == "confirm" else attempt(ids, "--all" in sys.argv))
