"""Builds the explorers from the working tree of the repository and runs them."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PACKETC_REPO", "/repo")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"


class Error(Exception):
    pass


def env(**more):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true", **more)
    return e


_mc = None
NO_HOOK = "The code under test does not build with the hook for hash order, so hash orders are random here, not enumerated."
SURFACE = "The parts of the compiler cannot be reached from outside, so only the results of whole compilations are judged."


def mc():
    """Builds the Rust explorer: (path of the program, whether the hook is on, whether it sees the inside)"""
    global _mc
    if _mc:
        return _mc
    log = ""
    for hook, inside in ((True, True), (False, True), (True, False), (False, False)):
        target = os.path.join(HERE, "target", ("hook" if hook else "plain") + ("" if inside else "-surface"))
        flags = ["--cfg packetc_mc"] * hook + ["--cfg packetc_surface"] * (not inside)
        p = subprocess.run(
            ["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(HERE, "mc", "Cargo.toml")],
            env=env(CARGO_TARGET_DIR=target, **({"RUSTFLAGS": " ".join(flags)} if flags else {})),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode == 0:
            _mc = os.path.join(target, "release", "mc"), hook, inside
            return _mc
        log = log or p.stdout
    raise Error("the explorer does not build:\n" + log[-3000:])


STUCK = 78
PATIENCE = 60


def run_mc(prop, tier):
    exe, hook, inside = mc()
    p = subprocess.run([exe, prop, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode == STUCK or p.returncode < 0:
        r = ended(prop, tier, exe, p)
    elif p.returncode != 0:
        raise Error("the explorer ended with %d:\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-3000:]))
    else:
        r = json.loads(p.stdout.decode())
    r["assumptions"] = [NO_HOOK] * (not hook) + [SURFACE] * (not inside)
    return r


def ended(prop, tier, exe, p):
    """The code under test ended the explorer, or does not end: finds on which input"""
    error = Error("the explorer ended with %d:\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-3000:]))
    r = {"counts": {"states": 0, "transitions": 0, "traces": 0}, "outcomes": {}, "samples": [], "violations": []}
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([exe, prop, tier], env=dict(os.environ, MC_TRACE=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for name in sorted(os.listdir(d)):
            with open(os.path.join(d, name), "rb") as f:
                b = f.read()
            if len(b) < 8:
                continue
            n, m = int.from_bytes(b[:4], "little"), int.from_bytes(b[4:8], "little")
            text, how = b[8:8 + n].decode(), b[8 + n:8 + n + m].decode()
            r["counts"]["traces"] += 1
            r["samples"].append(text)
            what = replay_mc(prop, text, how)
            if what:
                r["violations"].append({"what": what, "input": text, "how": how})
    if not r["violations"]:
        raise error
    return r


def replay_mc(prop, text, how):
    exe = mc()[0]
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, "input"), os.path.join(d, "how")
        with open(a, "w", newline="") as f:
            f.write(text)
        with open(b, "w", newline="") as f:
            f.write(how)
        try:
            p = subprocess.run([exe, "replay", prop, a, b], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=PATIENCE)
        except subprocess.TimeoutExpired:
            return "the compiler does not end"
    if p.returncode == STUCK:
        return "the compiler does not end"
    if p.returncode < 0:
        return "the compiler crashes: " + p.stderr.decode(errors="replace").strip()[-300:]
    if p.returncode != 0:
        raise Error("replay failed:\n" + p.stderr.decode(errors="replace")[-3000:])
    out = p.stdout.decode()
    return out.split("violated: ", 1)[1].strip() if "violated: " in out else None


def node():
    exe = shutil.which("node")
    if not exe:
        raise Error("no node")
    return exe


def run_js(prop, tier):
    exe = mc()[0]
    p = subprocess.run([node(), os.path.join(HERE, "js", "main.js"), prop, tier, exe],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Error("the explorer ended with %d:\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-3000:]))
    r = json.loads(p.stdout.decode())
    r.setdefault("assumptions", [])
    return r


def replay_js(prop, v):
    exe = mc()[0]
    p = subprocess.run([node(), os.path.join(HERE, "js", "main.js"), "replay", prop, exe], input=json.dumps(v).encode(),
                       stdout=subprocess.PIPE, check=True)
    return json.loads(p.stdout.decode())["what"]


_cli = None


def cli():
    """Builds the command: the path of the program"""
    global _cli
    if _cli:
        return _cli
    target = os.path.join(HERE, "target", "cli")
    p = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--bin", "packetc", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
        env=env(CARGO_TARGET_DIR=target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode != 0:
        raise Error("the command does not build:\n" + p.stdout[-3000:])
    _cli = os.path.join(target, "debug", "packetc")
    return _cli
