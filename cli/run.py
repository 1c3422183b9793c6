"""C13, C14, C15, C20 and the second half of C16: the command, run in scratch folders.

A case is data: a tree of files, a way to call the command, and what to expect.
Trees map a path to a key of CONTENT (a file), "=key" (the module of that
schema), None (a folder) or "->target" (a link).
"""
import itertools
import json
import multiprocessing
import os
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import build  # noqa: E402

T = "T: struct { a: uint8 }\nexport T\n"
CONTENT = {
    "A": T,
    "B": "T: struct { a: string, b?: float }\nexport T\n",
    "LONG": "Long: struct { %s }\nexport Long\n" % ", ".join("field_%d: uint32[]" % i for i in range(300)),
    "E": "E: enum { X, Y }\nT: struct { e: E }\nexport T\n",
    # modules of the same length
    "S": "T: struct { a: uint16 }\nexport T\n",
    "S2": "T: struct { a: uint32 }\nexport T\n",
    "CRLF": "# \u00e9\u4e2d\U0001f600\r\nT: struct {\r\n\ta: string[],\r\n}\r\nexport T\r\n",
    "HUGE": "Huge: struct { %s }\nexport Huge\n" % ", ".join("field_number_%d: int16" % i for i in range(4000)),
    "SYNTAX": "T: struct { a: uint8 ]\nexport T\n",
    "SYNTAX2": T + "}",
    "TYPE": "T: struct { a: Missing }\nexport T\n",
    "NOEXPORT": "T: struct { a: uint8 }\n",
    "EMPTY": "",
    "BOM": "\ufeff" + T,
    "HUGEBAD": "T: struct { a: uint8 }\nexport T\n" + "# filler\n" * 20000 + "]\n",
    "TWOEXPORTS": T + "export T\n",
    "EXPORTENUM": "E: enum { X }\nexport E\n",
    "EXPORTMISSING": "T: struct { a: uint8 }\nexport U\n",
    "TWICE": T + "T: struct { b: uint8 }\n",
    "FIELDS": "T: struct { a: uint8, a: string }\nexport T\n",
    "VARIANTS": "E: enum { X, X }\nT: struct { e: E }\nexport T\n",
    "HOLLOW": "E: enum { }\nT: struct { e: E }\nexport T\n",
    "WIDE": "E: enum { %s }\nT: struct { e: E }\nexport T\n" % ", ".join("V%d" % i for i in range(33)),
    "CYCLE": "T: struct { u: U }\nU: struct { t: T[] }\nexport T\n",
    "OPTARRAY": "T: struct { a?: uint8[] }\nexport T\n",
    "UNUSED": "U: struct { m: Missing }\n" + T,
    "COMMENT": "# nothing but a comment\n",
    "BLANK": " \n\t\r\n\n",
    "BINARY": b"T: struct { a: uint8 }\nexport T\n# \xff\xfe\n",
    "NOTE": "just a note\n",
    "STALE": "// an old module\n" * 2000,
    "SHORT": "x",
}
VALID = ("A", "B", "LONG", "E", "S", "S2", "CRLF", "HUGE")
SMALL = ("A", "B", "S", "E", "S2", "CRLF", "LONG")
INVALID = ("SYNTAX", "SYNTAX2", "TYPE", "NOEXPORT", "EMPTY", "BINARY", "BOM", "HUGEBAD", "TWOEXPORTS", "EXPORTENUM", "EXPORTMISSING", "TWICE", "FIELDS", "VARIANTS",
           "HOLLOW", "WIDE", "CYCLE", "OPTARRAY", "UNUSED", "COMMENT", "BLANK")

_state = {}


# sizes at which reading in pieces or a limit could matter
SIZES = sorted({2 ** k + d for k in range(12, 21) for d in (-1, 0, 1)} | {1000001, 1500000, 2 ** 21 + 1, 2 ** 22 + 1})
# no UTF-8: cut short, too long, a surrogate, too large, out of place
NOT_UTF8 = [b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\x80"]
MORE = [2 ** 23 + 1, 2 ** 24 + 1, 2 ** 25 + 1]


# modules which somebody has changed a little
NEARLY = {
    "appended": lambda b: b + b"more(\n", "longer": lambda b: b + b" ", "line": lambda b: b + b"\n", "twice": lambda b: b + b, "zero": lambda b: b + b"\0",
    "cut": lambda b: b[:-1], "tail": lambda b: b[:-40], "half": lambda b: b[:len(b) // 2], "head": lambda b: b[:b.index(b"\n") + 1],
    "unstamped": lambda b: b[b.index(b"\n") + 1:], "before": lambda b: b"// mine\n" + b, "bom": lambda b: b"\xef\xbb\xbf" + b, "stamp": lambda b: b.replace(b"\n", b" at Thu, 1 Jan 1970 00:00:00 +0000\n", 1),
    "version": lambda b: re.sub(rb"\d", b"9", b.split(b"\n")[0]) + b[b.index(b"\n"):], "crlf": lambda b: b.replace(b"\n", b"\r\n"), "blanks": lambda b: b.replace(b"    ", b"\t"),
    "upper": lambda b: b.upper(), "middle": lambda b: b[:len(b) // 2] + bytes([b[len(b) // 2] ^ 1]) + b[len(b) // 2 + 1:], "end": lambda b: b[:-3] + b"/" + b[-2:],
    "first": lambda b: b"xx" + b[2:], "word": lambda b: b.replace(b"enerated", b"ENERATED", 1), "first line": lambda b: b"-" * b.index(b"\n") + b[b.index(b"\n"):],
    "second": lambda b: b[:b.index(b"\n") + 1] + b"#" + b[b.index(b"\n") + 2:], "last": lambda b: b[:-1] + b" ", "same": lambda b: b,
    "start": lambda b: b.replace(b"import", b"Import", 1), "swap": lambda b: b.replace(b"read_", b"Read_"), "zeros": lambda b: b"\0" * len(b), "filled": lambda b: b"x" * len(b),
}


def changed(place):
    """One byte is another one, so many parts of a module behind its beginning"""
    def change(b):
        at = len(b) * place // PLACES
        return b[:at] + bytes([b[at] ^ 1]) + b[at + 1:]
    return change


PLACES = 40
SPOILED = ["at %d" % i for i in range(1, PLACES)]
NEARLY.update((k, changed(i)) for i, k in enumerate(SPOILED, 1))


def data(key):
    if key.startswith("=PAD"):
        return _state["modules"]["A"]
    if "~" in key:
        kind, key = key.split("~")
        return NEARLY[kind](data(key))
    # as it was written, with its time stamp
    if key.startswith("+"):
        return _state["stamped"][key[1:]]
    if key.startswith("=FIT"):
        return _state["modules"][key[5]]
    if key.startswith("="):
        return _state["modules"][key[1:]]
    # schema A or B with a comment behind it, of a given size
    if key.startswith("FIT"):
        text = CONTENT[key[4]].encode()
        return text + b"#" + b"-" * (int(key[5:]) - len(text) - 2) + b"\n"
    # schema A and comments of a given size, of which one is not UTF-8
    if key.startswith("RAW"):
        size, kind, place = map(int, key.split(":")[1:])
        text, bad = T.encode(), NOT_UTF8[kind]
        fill = b"-" * max(0, size - len(text) - 3 - len(bad))
        return b"#" + bad + fill + b"\n" + text if place == 0 else text + b"#" + fill + bad + b"\n" if place == 1 else text + b"#" + fill + bad
    # schema A behind a comment, or an error behind both; of a given size
    if key.startswith("PAD"):
        last = b"\n" + T.encode() + (b"" if key[3] == "+" else b"]")
        return b"# " + (b"padding " * (int(key[4:]) // 8 + 1))[:int(key[4:]) - 2 - len(last)] + last
    c = CONTENT[key]
    return c if isinstance(c, bytes) else c.encode()


def normal(b):
    """Without the time stamp of a module"""
    return re.sub(rb"\A(// Generated by [^\n]*?) at [^\n]*", rb"\1", b)


def modules():
    """What the library makes of each valid schema"""
    exe = build.mc()[0]
    out, _state["stamped"] = {}, {}
    for k in VALID:
        b = CONTENT[k].encode()
        p = subprocess.run([exe, "compile"], input=len(b).to_bytes(4, "little") + b, stdout=subprocess.PIPE, check=True).stdout
        if p[0] != 0:
            raise build.Error("the library does not compile schema " + k)
        _state["stamped"][k] = p[5:]
        out[k] = normal(p[5:])
    return out


def shim():
    """Builds the library which is preloaded"""
    d = os.path.join(build.HERE, "target")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "shim.so")
    p = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-fno-delete-null-pointer-checks", "-U_FORTIFY_SOURCE", "-o", so + ".tmp",
                        os.path.join(HERE, "shim.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise build.Error("the shim does not build: " + p.stdout.decode(errors="replace"))
    os.replace(so + ".tmp", so)
    return so


def prepare():
    if not _state:
        _state["modules"] = modules()
        # copies which every user can run
        d = _state["bin"] = scratch()
        os.chmod(d, 0o755)
        for k, path in (("exe", build.cli()), ("shim", shim())):
            _state[k] = os.path.join(d, os.path.basename(path))
            shutil.copy(path, _state[k])
            os.chmod(_state[k], 0o755)


def clean():
    if "bin" in _state:
        shutil.rmtree(_state.pop("bin"))
        _state.clear()


NOBODY = 65534


def drop():
    """Becomes a user who can harm nothing, whatever the command does"""
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setresgid(NOBODY, NOBODY, NOBODY)
            os.setresuid(NOBODY, NOBODY, NOBODY)
        except PermissionError:
            pass


# Trees. Paths are str with surrogate escapes.

def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return os.path.realpath(tempfile.mkdtemp(prefix="packetc-mc-", dir=base))


def create(root, tree):
    for path in sorted(tree):
        v = tree[path]
        p = os.path.join(root, path)
        if v is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if v.startswith("->"):
            os.symlink(v[2:], p)
        else:
            with open(p, "wb") as f:
                f.write(data(v))


def snapshot(root):
    """What is below the root; it is a state of the search"""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = "->" + os.readlink(p)
            elif os.path.isdir(p):
                out[r] = None
            else:
                with open(p, "rb") as f:
                    out[r] = normal(f.read())
    _state.setdefault("seen", set()).add(hash(tuple(sorted((k, repr(v)) for k, v in out.items()))))
    return out


def expected(before, outs):
    """The tree with modules written to it"""
    t = dict(before)
    for path, key in outs.items():
        t[path] = data("=" + key)
        d = os.path.dirname(path)
        while d:
            t.setdefault(d, None)
            d = os.path.dirname(d)
    return t


def show(v):
    return "a folder" if v is None else v if isinstance(v, str) else "%d bytes" % len(v)


def difference(got, want):
    for p in sorted(set(got) | set(want)):
        if p not in got:
            return "%r is missing" % p
        if p not in want:
            return "%r (%s) appears" % (p, show(got[p]))
        if got[p] != want[p]:
            return "%r is %s instead of %s" % (p, show(got[p]), show(want[p]))
    return None


def environment(root, faults, order, log, case={}):
    env = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(root, "home"), "TMPDIR": os.path.join(root, "home"), "LC_ALL": "C.UTF-8"}
    env.update(LD_PRELOAD=_state["shim"], SHIM_ROOT=root)
    if faults:
        env["SHIM_FAULTS"] = faults
    env["SHIM_ORDER"] = str(order or 0)
    env["SHIM_LOG"] = log
    for name, value in case.get("env", {}).items():
        if value is None:
            env.pop(name, None)
        else:
            env[name] = value.replace("{R}", root)
    return env


MUTATING = (b"create", b"unlink", b"rmdir", b"rename", b"link", b"truncate", b"chmod")


def strangers(case):
    """Files which were not there, are no outputs, and which the last run would have changed or removed"""
    tree, outs = case["tree"], case["outs"] or {}
    around = set()
    for p in list(tree) + list(outs):
        while p:
            around.add(p)
            p = os.path.dirname(p)
    new = {p: None if name == "rmdir" else "NOTE" for name, p in sorted(_state["touched"]) if not p.startswith("..") and p not in around and p != "."}
    # links lead elsewhere; nothing can be below a file
    bad = [p for p, v in tree.items() if v is not None]
    return {p: v for p, v in new.items() if not any(below(p, b) for b in bad) and not any(p != q and below(q, p) and v for q in new)}


def watch(screen):
    try:
        while os.read(screen, 65536):
            pass
    except OSError:
        pass
    os.close(screen)


def limits(case):
    """What the process may do, before it starts"""
    def go():
        if "umask" in case:
            os.umask(case["umask"])
        for name, n in case.get("limits", {}).items():
            resource.setrlimit(getattr(resource, name), (n, n))
        if "nice" in case:
            os.nice(case["nice"])
    return go if any(k in case for k in ("umask", "limits", "nice")) else None


def call(root, case, faults="", order=None, log=None):
    """Runs the command: (status, standard error). Negative if killed by a signal"""
    keep, log = log, log or root + ".log"
    env = environment(root, faults, order, log, case)
    args = [a.replace("{R}", root) for a in case["args"]]
    # where its standard output and error go: nowhere in particular, a full device, or nobody reads them
    streams = {"stdin": subprocess.DEVNULL, "stdout": subprocess.PIPE, "stderr": subprocess.PIPE}
    for name, kind in case.get("streams", {}).items():
        if kind == "full":
            streams[name] = os.open("/dev/full", os.O_WRONLY)
        elif kind == "terminal":
            # somebody sits in front of it
            screen, streams[name] = os.openpty()
            threading.Thread(target=watch, args=(screen,), daemon=True).start()
        else:
            r, streams[name] = os.pipe()
            os.close(r)
    try:
        p = subprocess.run([case.get("argv0", _state["exe"])] + args, executable=_state["exe"], cwd=os.path.join(root, case.get("cwd", "")), env=env, timeout=60, preexec_fn=limits(case), **streams)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        for fd in streams.values():
            if fd >= 0:
                os.close(fd)
        if os.path.exists(log):
            touched = _state["touched"] = set()
            with open(log, "rb") as f:
                for line in f:
                    _state["calls"] = _state.get("calls", 0) + 1
                    x = line.rstrip(b"\n").split(b" ", 3)
                    if len(x) == 4 and x[1] in MUTATING:
                        touched.add((x[1].decode(), os.path.relpath(os.path.normpath(os.fsdecode(x[3])), root)))
            if not keep:
                os.unlink(log)
    return p.returncode, "?" if p.stderr is None else p.stderr.decode(errors="replace")


def allow(root, case):
    for path in case.get("modes", {}):
        p = os.path.join(root, path)
        if os.path.exists(p):
            os.chmod(p, 0o755 if os.path.isdir(p) else 0o644)


def remove(p):
    shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)


def open_up(root):
    """So that everything can be removed"""
    if _state.pop("closed", None):
        os.chmod(root, 0o755)
        for d, ds, _ in os.walk(root):
            for n in ds:
                if not os.path.islink(os.path.join(d, n)):
                    os.chmod(os.path.join(d, n), 0o755)


def fresh(root, case):
    open_up(root)
    _state["closed"] = bool(case.get("modes"))
    for n in os.listdir(root):
        remove(os.path.join(root, n))
    os.makedirs(os.path.join(root, "home"))
    create(root, case["tree"])
    before = snapshot(root)
    for path, mode in case.get("modes", {}).items():
        os.chmod(os.path.join(root, path), mode)
    for path, ns in case.get("times", {}).items():
        os.utime(os.path.join(root, path), ns=(ns, ns))
    return before


def judge_run(prop, root, case):
    """C13 and C14: one run"""
    before = fresh(root, case)
    status, err = call(root, case, order=case.get("order"))
    allow(root, case)
    after = snapshot(root)
    if status == "timeout":
        return "the command does not end"
    if prop == "C14":
        if case["ok"]:
            return None if status == 0 else "it fails with status %s although everything is valid: %s" % (status, err[:300])
        if status == 0:
            return "it reports success"
        if not err.strip():
            return "it fails without a message on standard error"
        d = difference(after, before)
        return "it fails, but %s" % d if d else None
    d = difference(after, expected(before, case["outs"]))
    if d:
        return "%s (status %s) %s" % (d, status, err[:200])
    # if it handled other files on the way: what if there is something already?
    new = strangers(case)
    if new:
        case = dict(case, tree=dict(case["tree"], **new))
        before = fresh(root, case)
        status, err = call(root, case, order=case.get("order"))
        allow(root, case)
        after = snapshot(root)
        for p in new:
            if after.get(p, 0) != before[p]:
                return "%r is changed or removed if it exists" % p
    return None


# what a file or folder can be like without being any less readable and writable
FILE_MODES = [0o400, 0o404, 0o440, 0o444, 0o464, 0o500, 0o555, 0o600, 0o604, 0o640, 0o644, 0o660, 0o664, 0o666, 0o700, 0o744, 0o755, 0o770, 0o775, 0o777, 0o1444, 0o1644, 0o1777, 0o2444, 0o2644, 0o2755, 0o4444, 0o4644,
              0o4755, 0o6755, 0o7777]
AGES = [-2 ** 31, -10 ** 9, -1, 0, 1, 2, 59, 3600, 86399, 86400, 315532799, 315532800, 946684800, 10 ** 9, 1500000000, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 4102444800, 10 ** 10]


def attributes(ins, folders, outs=(), most=None):
    """Modes and times for files, and a few other times which could be compared with"""
    for p in ins:
        for m in FILE_MODES:
            yield {"modes": {p: m}}
    for m in FILE_MODES:
        yield {"modes": {p: m for p in ins}}
        for p in outs:
            if m & 0o600 == 0o600:
                yield {"modes": {p: m}}
                yield {"modes": dict({p: m}, **{q: m for q in ins})}
                yield {"modes": dict({p: m}, **{q: 0o444 for q in ins})}
        for p in folders:
            if m & 0o500 == 0o500:
                yield {"modes": {p: m}}
    now = int(time.time())
    ages = [a * 10 ** 9 for a in AGES] + [1, 10 ** 9 - 1, (now - 5) * 10 ** 9, (now + 5) * 10 ** 9, now * 10 ** 9 + 1]
    for a in ages:
        yield {"times": {p: a for p in ins}}
        for p in list(ins) + list(folders) + list(outs):
            yield {"times": {p: a}}
        for b in ages if outs else ():
            yield {"times": dict({p: a for p in ins}, **{p: b for p in outs})}


# C13

NAMES = ["a.pkt", "b.c.pkt", "n.txt", "pkt", "x.pkt.bak", "sp ace.pkt", "ü.pkt", "y.PKT", "-z.pkt", "a.ts", "a.b.pkt"]


# names which mean something to somebody
WORDS = ["node_modules", "target", "build", "dist", "out", "bin", "obj", "lib", "src", "vendor", "test", "tests", "tmp", "temp", "cache", "generated", "gen", "__pycache__", "CVS", "lost+found",
         "_a", "__", "~a", "a~", "#a#", "@a", "$a", "%a", "+a", "=a", "!a", "a!", "(a)", "[a]", "{a}", "a'b", "a\"b", "a;b", "a&b", "a|b", "a*b", "a?b", "a<b", "a\\b", "a:b", "a,b", "a\tb", "a\nb", " a", "a ",
         "A", "Z", "0", "1", "-", "--", "-a", "--help", "index", "main", "mod", "Makefile", "README", "CON", "NUL", "con", "default", "example", "a.test", "a.d", "a.min", "a.spec", "a.old", "a.bak",
         "~", "~root", "~nobody", "~+", "~-", "$HOME", "${HOME}", "$PWD", "%HOME%", "$(a)", "`a`", "file:", "C:", "a=b", "null", "stdin", "stdout", "*", "**", "?", "[a-z]", "{a,b}", "@", "a@b", "a#b", "^a", "a%20b", "%2e",
         "a.tmp", "a.ts", "a.pkt", "a.swp", "pkt", "ts", "\u4e2d", "e\u0301", "\u00e9", "\U0001f600", "\u00df", "\u0130", "\u202e", "a" * 64, "a" * 128, "a" * 200, "a.b" * 60, ".git", ".svn", ".a", "..a", "...", ".a.b"]


DECOYS = ["packet.d.ts", "a.d.ts", "a.js", "a.js.map", "a.ts.map", "a.tsx", "a.mts", "a.ts.bak", "a.ts~", "a.ts.tmp", "a.tmp", ".a.ts.swp", ".a.ts", "a", "b", "a.ts.old", "a.ts.new", "a.ts.lock", "a.lock", "a.bak",
          "index.ts", "mod.ts", "z.ts", "A.ts", "package.json", "tsconfig.json", ".gitignore", ".gitkeep", ".packetc", "packetc.json", "packetc.toml", ".cache", ".lock", "lock", "tmp", "core", "a.rs", "a.txt",
          "Cargo.lock", "a.pkt.ts", "a.pkt.bak", "aa.ts", "a_.ts", "old.ts", "-a.ts", "\u00e9.ts"]


def out_name(n):
    return (n[:n.rindex(".")] if "." in n[1:] else n) + ".ts"


def c13_cases(thorough):
    # which files are schemas: all sets of names, at three depths
    for depth in ("", "d", "d/e.f"):
        for mask in range(1 << len(NAMES)):
            some = [n for i, n in enumerate(NAMES) if mask >> i & 1]
            tree, outs = {"in": None}, {}
            for i, n in enumerate(some):
                p = os.path.join(depth, n)
                tree["in/" + p] = "AB"[i % 2] if n.endswith("pkt") else "NOTE"
                if n.endswith(".pkt"):
                    outs["out/" + os.path.join(depth, out_name(n))] = "AB"[i % 2]
            yield {"family": "names", "tree": tree, "args": ["ts", "in", "out"], "outs": outs}
    # folders: every small shape, with folders which are named like schemas or outputs
    shapes = ["a.pkt", "p/a.pkt", "p/q/a.pkt", "p/q/r/a.pkt", "q/a.pkt", "q.pkt/a.pkt", "q.pkt/r.ts/b.pkt", "p.ts/a.pkt", ".h/a.pkt", "in/a.pkt", "out/a.pkt", "p q/b.pkt"]
    for mask in range(1 << len(shapes)):
        some = [n for i, n in enumerate(shapes) if mask >> i & 1]
        tree, outs = {"in": None, "in/hollow/folder": None}, {}
        for i, n in enumerate(some):
            tree["in/" + n] = SMALL[i % 7]
            outs["out/" + n[:-4] + ".ts"] = SMALL[i % 7]
        yield {"family": "folders", "tree": tree, "args": ["ts", "in", "out"], "outs": outs}
    # names of files and of folders, one at a time and all together
    whole, modules_ = {"in/z.pkt": "A"}, {"out/z.ts": "A"}
    for i, w in enumerate(WORDS):
        k = SMALL[i % 7]
        tree, outs = {"in/%s.pkt" % w: k, "in/%s/a.pkt" % w: "B", "in/d/%s/%s.pkt" % (w, w): "E"}, {"out/%s.ts" % w: k, "out/%s/a.ts" % w: "B", "out/d/%s/%s.ts" % (w, w): "E"}
        yield {"family": "words", "tree": tree, "args": ["ts", "in", "out"], "outs": outs}
        yield {"family": "words", "tree": {"in/%s.pkt" % w: k, "in/z.pkt": "A"}, "args": ["ts", "in/%s.pkt" % w, "out"], "outs": {"out/%s.ts" % w: k}}
        yield {"family": "words", "tree": {"x/%s/a.pkt" % w: k, "x/%s/d/b.pkt" % w: "A"}, "args": ["ts", "x/" + w, "y/" + w], "outs": {"y/%s/a.ts" % w: k, "y/%s/d/b.ts" % w: "A"}}
        # first of all in a path
        if not w.startswith("-"):
            yield {"family": "words", "tree": {w + "/a.pkt": k, w + "/d/b.pkt": "A"}, "args": ["ts", w, "@" + w], "outs": {"@%s/a.ts" % w: k, "@%s/d/b.ts" % w: "A"}}
            yield {"family": "words", "tree": {"x/a.pkt": k}, "args": ["ts", "x", w], "outs": {w + "/a.ts": k}}
            yield {"family": "words", "tree": {"x/a.pkt": k}, "args": ["ts", "x/a.pkt", w + "/" + w], "outs": {"%s/%s/a.ts" % (w, w): k}}
            yield {"family": "words", "tree": {w: k, "x": None}, "args": ["ts", w, "x"], "outs": {"x/" + out_name(w): k}}
        whole.update(tree)
        modules_.update(outs)
    yield {"family": "words", "tree": whole, "args": ["ts", "in", "out"], "outs": modules_}
    # dots wherever they can be
    for n in range(1, 7 if thorough else 5):
        for w in map("".join, itertools.product(".a ", repeat=n)):
            if w not in (".", ".."):
                yield {"family": "dots", "tree": {"d/" + w: "B", "d/z.pkt": "A"}, "args": ["ts", "d/" + w, "result"], "outs": {"result/" + out_name(w): "B"}}
                yield {"family": "dots", "tree": {"in/%s/a.pkt" % w: "B", "in/z.pkt": "A"}, "args": ["ts", "in", "out"], "outs": {"out/%s/a.ts" % w: "B", "out/z.ts": "A"}}
                yield {"family": "dots", "tree": {"x/%s/a.pkt" % w: "B"}, "args": ["ts", "x/" + w, "y/" + w], "outs": {"y/%s/a.ts" % w: "B"}}
            yield {"family": "dots", "tree": {"in/%s.pkt" % w: "B", "in/d/%s.pkt" % w: "A"}, "args": ["ts", "in", "out"], "outs": {"out/%s.ts" % w: "B", "out/d/%s.ts" % w: "A"}}
            yield {"family": "dots", "tree": {"in/%s.pkt" % w: "B", "in/z.pkt": "A"}, "args": ["ts", "in/%s.pkt" % w, "out"], "outs": {"out/%s.ts" % w: "B"}}
    # large files
    for n in SIZES + (MORE if thorough else []):
        yield {"family": "large files", "tree": {"in/a.pkt": "PAD+%d" % n, "in/b.pkt": "B"}, "args": ["ts", "in", "out"], "outs": {"out/a.ts": "PAD+%d" % n, "out/b.ts": "B"}}
    # files which are no outputs, next to outputs and schemas, whatever their names
    others = {p % (n if "%s" in p else ()): "NOTE" for n in DECOYS for p in ("out/%s", "out/d/%s", "in/%s", "in/d/%s", "%s", "out/other/%s")}
    for i, n in enumerate(DECOYS):
        for args, outs in ((["ts", "in", "out"], {"out/a.ts": "A", "out/d/b.ts": "B"}), (["ts", "in/a.pkt", "out"], {"out/a.ts": "A"}), (["ts", "in", "in"], {"in/a.ts": "A", "in/d/b.ts": "B"})):
            where = args[2]
            tree = {"in/a.pkt": "A", "in/d/b.pkt": "B"}
            yield {"family": "other files", "tree": dict(tree, **{where + "/" + n: "NOTE", where + "/d/" + n: "STALE"}), "args": args, "outs": outs}
            if i == 0:
                yield {"family": "other files", "tree": dict(tree, **others), "args": args, "outs": outs}
                yield {"family": "other files", "tree": dict(tree, **dict(others, **{"out/a.ts": "STALE", "out/d/b.ts": "SHORT", "in/a.ts": "STALE"})), "args": args, "outs": outs}
    # the same names in two folders
    if thorough:
        few = NAMES[:3] + NAMES[8:]
        for m1, m2 in itertools.product(range(1 << len(few)), repeat=2):
            tree, outs = {"in": None}, {}
            for d, m in (("d/", m1), ("d/a.pkt/", m2)):
                for i, n in enumerate(few):
                    if m >> i & 1 and not (d == "d/" and n == "a.pkt"):
                        tree["in/" + d + n] = SMALL[(i + len(d)) % 7] if n.endswith("pkt") else "NOTE"
                        if n.endswith(".pkt"):
                            outs["out/" + d + out_name(n)] = SMALL[(i + len(d)) % 7]
            yield {"family": "two folders", "tree": tree, "args": ["ts", "in", "out"], "outs": outs}
    # links to files and folders are followed
    links = {"in/l.pkt": ("->../else/x.pkt", {"out/l.ts": "B"}), "in/d": ("->../else", {"out/d/x.ts": "B", "out/d/s/y.ts": "E"}), "in/e.pkt": ("->../else/s", {"out/e.pkt/y.ts": "E"}),
             "in/m.txt": ("->../else/x.pkt", {}), "in/k.pkt": ("->../else/n.txt", {"out/k.ts": "S"}), "in/p/q/r": ("->../../../else/s", {"out/p/q/r/y.ts": "E"})}
    for mask in range(1 << len(links)):
        tree, outs = {"in/a.pkt": "A", "else/x.pkt": "B", "else/s/y.pkt": "E", "else/n.txt": "S"}, {"out/a.ts": "A"}
        for i, (p, (target, o)) in enumerate(links.items()):
            if mask >> i & 1:
                tree[p] = target
                outs.update(o)
        yield {"family": "links", "tree": tree, "args": ["ts", "in", "out"], "outs": outs}
        yield {"family": "links", "tree": dict(tree, inl="->in", out="->real", real=None), "args": ["ts", "inl", "out"],
               "outs": {"real" + p[3:]: k for p, k in outs.items()}}
    # orders of listing
    for n in range(720 if thorough else 120):
        names = ["a.pkt", "b.pkt", "c/d.pkt", "e.pkt", "f.g.pkt", "h.txt"]
        yield {"family": "orders", "tree": {"in/" + x: SMALL[i % 7] for i, x in enumerate(names)}, "args": ["ts", "in", "out"], "order": n,
               "outs": {"out/" + x[:-4] + ".ts": SMALL[i % 7] for i, x in enumerate(names[:5])}}
    # spellings of the paths
    tree = {"w/in/a.pkt": "A", "w/in/s/b.c.pkt": "B", "w/in/s/n.txt": "NOTE", "w/other/o.ts": "NOTE", "w/old/s": None, "w/x.pkt": "SYNTAX", "w/deep/er": None}
    ins = {
        "w": ["in", "in/", "./in", "in/.", "in//", "./in/./", "../w/in", "in/s/..", "in/s/../", "other/../in", "{R}/w/in", "{R}/w/in/", "{R}/w/../w/in", "{R}//w//in"],
        "w/in": [".", "./", "./.", "../in", "s/..", "../../w/in/", "{R}/w/in"],
        "w/in/s": ["..", "../", "../../in", "../s/.."],
        "": ["w/in", "./w/in", "w/./in/", "w/other/../in"],
    }
    files = {
        "w": ["in/s/b.c.pkt", "./in/s/b.c.pkt", "in//s/b.c.pkt", "in/../in/s/b.c.pkt", "../w/in/s/./b.c.pkt", "{R}/w/in/s/b.c.pkt", "{R}/w/../w/in/s/b.c.pkt"],
        "w/in": ["s/b.c.pkt", "./s/b.c.pkt"],
        "w/in/s": ["b.c.pkt", "./b.c.pkt", "../s/b.c.pkt"],
        "": ["w/in/s/b.c.pkt"],
    }
    outdirs = {"out": "w/out", "out/": "w/out", "./out": "w/out", "out/x/y": "w/out/x/y", "out//x/./y/": "w/out/x/y", ".": "w", "./": "w", "..": "", "../": "", "../new": "new",
               "other": "w/other", "other/": "w/other", "old": "w/old", "old/s": "w/old/s", "old/s/..": "w/old", "in": "w/in", "in/": "w/in", "in/out": "w/in/out", "in/s": "w/in/s",
               "o.u.t": "w/o.u.t", "out.pkt": "w/out.pkt", "out.ts": "w/out.ts", "o ut": "w/o ut", "{R}/w/out": "w/out", "{R}/fresh/out/": "fresh/out", "deep/er/../../out": "w/out"}
    for cwd, spelled in ins.items():
        for i in spelled:
            for o, where in outdirs.items():
                if cwd != "w" and not o.startswith("{R}"):
                    o = os.path.join(os.path.relpath("/w", "/" + cwd), o)
                outs = {os.path.normpath(os.path.join(where, "a.ts")): "A", os.path.normpath(os.path.join(where, "s/b.c.ts")): "B"}
                yield {"family": "spellings of folders", "tree": tree, "cwd": cwd, "args": ["ts", i, o], "outs": outs}
    for cwd, spelled in files.items():
        for i in spelled:
            for o, where in outdirs.items():
                if cwd != "w" and not o.startswith("{R}"):
                    o = os.path.join(os.path.relpath("/w", "/" + cwd), o)
                yield {"family": "spellings of files", "tree": tree, "cwd": cwd, "args": ["ts", i, o], "outs": {os.path.normpath(os.path.join(where, "b.c.ts")): "B"}}
    # single files: names
    for n in ["a.pkt", "a.b.pkt", "a.b.c.d.pkt", "a.txt", "a", ".h.pkt", "a.ts.pkt", "a.pkt.ts", "a b.pkt", "ü.pkt", "a..pkt", "pkt.pkt", "ts.pkt", "a.PKT", "x-y_z.1.pkt", "a.b"]:
        for d in ["", "in/", "in.pkt/", "in/a.b/"]:
            for key in VALID:
                yield {"family": "single files", "tree": {d + n: key, "in/other.pkt": "B", "keep.ts": "NOTE"}, "args": ["ts", "./" + d + n, "out"], "outs": {"out/" + out_name(n): key}}
    # what is in the output folder already: something which is nearly right
    for kind in [k + s for k in NEARLY for s in ("~=", "~+")]:
        for key in ("A", "LONG") if kind.startswith("at ") else SMALL:
            for single in (False, True):
                yield {"family": "earlier output", "tree": {"in/a.pkt": key, "in/d/b.pkt": "B", "out/a.ts": kind + key, "out/d/b.ts": kind + "B", "out/keep.ts": kind + key},
                       "args": ["ts", "in/a.pkt" if single else "in", "out"], "outs": {"out/a.ts": key} if single else {"out/a.ts": key, "out/d/b.ts": "B"}}
    # or anything else
    old = [None, "A", "STALE", "SHORT", "EMPTY", "=A", "=B", "=LONG", "=S"]
    for key in VALID:
        for a, b in itertools.product(old, old):
            for single in (False, True):
                tree = {"in/a.pkt": key, "in/d/b.pkt": "B", "out/keep.ts": "STALE", "out/a.ts.bak": "NOTE", "out/d/k/keep.pkt": "NOTE", "out/zz.ts": "=A"}
                if a:
                    tree["out/a.ts"] = a
                if b:
                    tree["out/d/b.ts"] = b
                outs = {"out/a.ts": key}
                if not single:
                    outs["out/d/b.ts"] = "B"
                yield {"family": "earlier output", "tree": tree, "args": ["ts", "in/a.pkt" if single else "in", "out"], "outs": outs}
    # modes and times
    for tree, outs in (({}, ()), ({"out/a.ts": "STALE", "out/d/b.ts": "=A"}, ("out/a.ts", "out/d/b.ts")), ({"out/a.ts": "=A"}, ("out/a.ts",))):
        for a in attributes(["in/a.pkt", "in/d/b.pkt"], ["in", "in/d"], outs):
            yield dict(a, family="modes and times", tree=dict({"in/a.pkt": "A", "in/d/b.pkt": "B", "in/n.txt": "NOTE"}, **tree), args=["ts", "in", "out"], outs={"out/a.ts": "A", "out/d/b.ts": "B"})
            if "in/d" not in str(a):
                yield dict(a, family="modes and times", tree=dict({"in/a.pkt": "A", "in/d/b.pkt": "B"}, **tree), args=["ts", "in/a.pkt", "out"], outs={"out/a.ts": "A"})
    # whatever surrounds the run
    for c in elsewhere({"in/a.pkt": "A", "in/d/b.pkt": "B"}):
        yield dict(c, outs={"out/a.ts": "A", "out/d/b.ts": "B"})
    # names which are not UTF-8, many files, deep folders
    bad = b"n\xff".decode(errors="surrogateescape")
    yield {"family": "raw names", "tree": {"in/%s/a.pkt" % bad: "A"}, "args": ["ts", "in", "out"], "outs": {"out/%s/a.ts" % bad: "A"}}
    yield {"family": "raw names", "tree": {"in/%s.pkt" % bad: "A", "in/b.pkt": "B"}, "args": ["ts", "in", "out"], "outs": {"out/%s.ts" % bad: "A", "out/b.ts": "B"}}
    yield {"family": "raw names", "tree": {"in/%s.x.pkt" % bad: "A", "in/%s/n.txt" % bad: "NOTE"}, "args": ["ts", "in", "out"], "outs": {"out/%s.x.ts" % bad: "A"}}
    for n in list(range(1, 33)) + ([100, 600, 1100, 4200] if thorough else [100, 600]):
        names = ["f%d.pkt" % i for i in range(n)]
        yield {"family": "many files", "tree": {"in/" + x: "AB"[i % 2] for i, x in enumerate(names)}, "args": ["ts", "in", "out"],
               "outs": {"out/" + x[:-4] + ".ts": "AB"[i % 2] for i, x in enumerate(names)}}
        if n <= 100:
            yield {"family": "many folders", "tree": {"in/d%d/e/f%d.pkt" % (i, i): "AB"[i % 2] for i in range(n)}, "args": ["ts", "in", "out"], "outs": {"out/d%d/e/f%d.ts" % (i, i): "AB"[i % 2] for i in range(n)}}
            d = "/".join("d%d" % i for i in range(n))
            yield {"family": "deep folders", "tree": {"in/%s/a.pkt" % d: "A", "in/b.pkt": "B"}, "args": ["ts", "in", "out"], "outs": {"out/%s/a.ts" % d: "A", "out/b.ts": "B"}}
    for n in [127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513] + ([1000, 1023, 1024, 1025, 2100] if thorough else [1025]):
        for other in (False, True):
            yield {"family": "many folders", "tree": {"in/d%d/%s" % (i, "n.txt" if other and i < n - 1 else "a.pkt"): "AB"[i % 2] for i in range(n)}, "args": ["ts", "in", "out"],
                   "outs": {"out/d%d/a.ts" % i: "AB"[i % 2] for i in range(n) if not other or i == n - 1}}
            yield {"family": "many other files", "tree": dict({"in/n%d.txt" % i: "NOTE" for i in range(n)}, **{"in/a.pkt": "A", "in/z/b.pkt": "B"}), "args": ["ts", "in", "out"], "order": int(other),
                   "outs": {"out/a.ts": "A", "out/z/b.ts": "B"}}
    # names of every length
    for n in range(1, 256):
        w = "name_Of.9" * 29
        w = (w[:n - 1] + "x")[:n]
        yield {"family": "lengths", "tree": {"in/%s/a.pkt" % w: "A", "in/d/%s/e/b.pkt" % w: "B"}, "args": ["ts", "in", "out"], "outs": {"out/%s/a.ts" % w: "A", "out/d/%s/e/b.ts" % w: "B"}}
        yield {"family": "lengths", "tree": {"in/%s/a.pkt" % w: "A"}, "args": ["ts", "in/" + w, "o/" + w], "outs": {"o/%s/a.ts" % w: "A"}}
        if n < 252:
            yield {"family": "lengths", "tree": {"in/%s.pkt" % w: "A", "in/d/%s.pkt" % w: "B"}, "args": ["ts", "in", "out"], "outs": {"out/%s.ts" % w: "A", "out/d/%s.ts" % w: "B"}}
            yield {"family": "lengths", "tree": {"in/%s.pkt" % w: "A", "in/z.pkt": "B"}, "args": ["ts", "in/%s.pkt" % w, "out"], "outs": {"out/%s.ts" % w: "A"}}


# C14

def c14_cases(thorough):
    kinds = ["A", "SYNTAX", "TYPE", "EMPTY", "BINARY", "->nowhere", "->self.pkt"]
    places = ["a.pkt", "b.pkt", "d/c.pkt", "d/e/f.pkt"]
    earlier = [{}, {"out": None}, {"out/a.ts": "STALE", "out/d/c.ts": "=B", "out/k": "NOTE"}]
    for combo in itertools.product([None] + kinds, repeat=len(places)):
        files = {("in/" + p): k for p, k in zip(places, combo) if k}
        # a link to itself
        files = {p: ("->" + os.path.basename(p) if k == "->self.pkt" else k) for p, k in files.items()}
        ok = all(k == "A" for k in files.values())
        for e in earlier:
            tree = dict({"in": None, "in/n.txt": "NOTE"}, **files)
            tree.update(e)
            # both orders of listing
            for order in (range(24) if thorough and len(files) > 1 else (0, 5) if len(files) > 1 else (0,)):
                yield {"family": "folders", "tree": tree, "args": ["ts", "in", "out"], "ok": ok, "order": order}
    # one invalid file among n, at each place
    for n in (4, 5, 6):
        for bad in range(n + 1):
            for kind in INVALID:
                tree = {"in/%s.pkt" % c: "A" for c in "abcdef"[:n]}
                if bad < n:
                    tree["in/%s.pkt" % "abcdef"[bad]] = kind
                for order in range(0, 120 if thorough else 24):
                    yield {"family": "one of several", "tree": tree, "args": ["ts", "in", "out"], "ok": bad == n, "order": order}
    # one among many, and far down
    for n in list(range(7, 41)) + ([64, 65, 100, 128, 129, 256, 257, 300] if thorough else [64, 65, 100]):
        for bad in range(n):
            for kind in ("TYPE", "SYNTAX", "->nowhere"):
                if n > 40 and kind != "TYPE":
                    continue
                tree = {"in/f%03d.pkt" % i: kind if i == bad else "A" for i in range(n)}
                yield {"family": "one of many", "tree": tree, "args": ["ts", "in", "out"], "ok": False, "order": 0}
    # any number of invalid files
    for n in list(range(2, 41)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513] + ([768, 1000, 1024, 65536 // 16] if thorough else []):
        for kind in ("TYPE", "SYNTAX", "EMPTY", "->nowhere"):
            yield {"family": "many invalid", "tree": {"in/f%03d.pkt" % i: kind for i in range(n)}, "args": ["ts", "in", "out"], "ok": False, "order": 0}
            yield {"family": "many invalid", "tree": {"in/%s%03d.pkt" % (d, i): k for i in range(n) for d, k in (("a", "A"), ("f", kind))}, "args": ["ts", "in", "out"], "ok": False, "order": 0}
    for depth in range(1, 41):
        for bad in range(depth + 1):
            for kind in (("A", "TYPE", "SYNTAX", "EMPTY", "BINARY", "->nowhere") if bad in (0, depth) else ("TYPE", "SYNTAX")):
                tree = {"in/" + "d/" * i + "f.pkt": kind if i == bad else "B" for i in range(depth + 1)}
                yield {"family": "far down", "tree": tree, "args": ["ts", "in", "out"], "ok": kind == "A", "order": 0}
    # names which could be left out, and large files
    for w in WORDS:
        for kind in ("TYPE", "SYNTAX", "->nowhere"):
            for p in ("in/%s.pkt" % w, "in/%s/a.pkt" % w, "in/d/%s/%s.pkt" % (w, w)):
                yield {"family": "words", "tree": {p: kind, "in/z.pkt": "A"}, "args": ["ts", "in", "out"], "ok": False, "order": 0}
        yield {"family": "words", "tree": {"in/%s.pkt" % w: "TYPE", "in/z.pkt": "A"}, "args": ["ts", "in/%s.pkt" % w, "out"], "ok": False, "order": 0}
    for n in SIZES + (MORE if thorough else []):
        for key in ("PAD+%d" % n, "PAD-%d" % n):
            yield {"family": "large files", "tree": {"in/a.pkt": key}, "args": ["ts", "in/a.pkt", "out"], "ok": key[3] == "+", "order": 0}
            yield {"family": "large files", "tree": {"in/a.pkt": "A", "in/d/b.pkt": key, "in/z.pkt": "B"}, "args": ["ts", "in", "out"], "ok": key[3] == "+", "order": 0}
    for n in list(range(40, 300, 3)) + SIZES:
        for kind in range(len(NOT_UTF8)):
            for place in range(3):
                key = "RAW:%d:%d:%d" % (n, kind, place)
                if n < 5000 or (kind + place + n) % 8 == 0 or thorough:
                    yield {"family": "not UTF-8", "tree": {"in/a.pkt": key}, "args": ["ts", "in/a.pkt", "out"], "ok": False, "order": 0}
                if kind % 4 == place:
                    yield {"family": "not UTF-8", "tree": {"in/a.pkt": "A", "in/d/b.pkt": key, "out/a.ts": "STALE"}, "args": ["ts", "in", "out"], "ok": False, "order": 0}
    # through links to files and to folders
    for kind in ("A", "B", "CRLF") + INVALID:
        for links in ({"in/l.pkt": "->../else/x.pkt"}, {"in/l": "->../else"}, {"in/d/l.pkt": "->../../else/x.pkt"}, {"in/l": "->m", "in/m": "->../else"}, {"in/l.pkt": "->m.pkt", "in/m.pkt": "->../else/x.pkt"},
                      {"in/l.pkt": "->n.txt", "in/n.txt": "->../else/x.pkt"}, {"in": "->else"}, {"in/e.pkt": "->../else"}):
            for old in ({}, {"out/l.ts": "STALE", "out/a.ts": "=A"}):
                for order in range(2):
                    tree = dict({"in/a.pkt": "A", "in/z.pkt": "B"} if "in" not in links else {}, **links)
                    yield {"family": "links", "tree": dict(tree, **dict(old, **{"else/x.pkt": kind, "else/n.txt": "NOTE"})), "args": ["ts", "in", "out"], "ok": kind in VALID, "order": order}
        yield {"family": "links", "tree": {"l.pkt": "->else/x.pkt", "else/x.pkt": kind}, "args": ["ts", "l.pkt", "out"], "ok": kind in VALID, "order": 0}
    # one among many folders or other files
    for n in [5, 20, 40, 64, 65, 100, 128, 129, 200, 256, 257, 300, 500, 512, 513] + ([1000, 1024, 1025, 2000, 4100] if thorough else [1025]):
        for kind in ("A", "TYPE", "SYNTAX", "->nowhere"):
            for bad in (0, n // 2, n - 1):
                yield {"family": "many folders", "tree": {"in/d%04d/f.pkt" % i: kind if i == bad else "A" for i in range(n)}, "args": ["ts", "in", "out"], "ok": kind == "A", "order": 0}
            for p in ("a.pkt", "z.pkt", "d/a.pkt", "z/z/z.pkt"):
                yield {"family": "many other files", "tree": dict({"in/n%04d.txt" % i: "NOTE" for i in range(n)}, **{"in/" + p: kind, "in/m.pkt": "B"}), "args": ["ts", "in", "out"], "ok": kind == "A", "order": 0}
    for n in range(1, 252):
        w = ("name_Of.9" * 29)[:n - 1] + "x"
        for kind in ("TYPE", "SYNTAX"):
            yield {"family": "lengths", "tree": {"in/%s.pkt" % w: kind, "in/z.pkt": "A"}, "args": ["ts", "in", "out"], "ok": False, "order": 0}
            yield {"family": "lengths", "tree": {"in/%s/a.pkt" % w: kind, "in/z.pkt": "A"}, "args": ["ts", "in", "out"], "ok": False, "order": 0}
    for kind in ("A", "TYPE", "SYNTAX"):
        for tree, outs in (({}, ()), ({"out/a.ts": "STALE", "out/d/b.ts": "=B"}, ("out/a.ts", "out/d/b.ts"))):
            for i, a in enumerate(attributes(["in/a.pkt", "in/d/b.pkt"], ["in", "in/d"], outs)):
                if "modes" in a or len(a["times"]) < 3 or kind != "A":
                    yield dict(a, family="modes and times", tree=dict({"in/a.pkt": "A", "in/d/b.pkt": kind, "in/z.pkt": "E"}, **tree), args=["ts", "in", "out"], ok=kind == "A", order=i % 2)
    # a single file may have any name
    for n in ["a.ts", "a.txt", "a", "a.PKT", "a.pkt.bak", "a.b", ".a", ".pkt", "a.", "a.json", "a.rs", "a.js", "a.d.ts", "a.proto", "pkt", "a.pkts", "a.pk", "a.pkt~", "-a.pkt", "a b", "\u00e9.x", "..pkt", "...pkt", ".a.", "..a.pkt"] + WORDS:
        for d in ("", "in/", "d.ts/", "d.pkt/"):
            for key in ("A", "E", "TYPE", "SYNTAX", "EMPTY"):
                yield {"family": "single files", "tree": {d + n: key, "keep.ts": "NOTE"}, "args": ["ts", "./" + d + n, "result"], "ok": key in VALID, "order": 0}
    # invalid content where it does not matter
    for n in ("x.txt", "x", "x.pkt.bak", "x.PKT", "pkt", ".x"):
        for kind in INVALID + ("->nowhere",):
            yield {"family": "not schemas", "tree": {"in/a.pkt": "A", "in/" + n: kind}, "args": ["ts", "in", "out"], "ok": True}
    # single files
    for kind in VALID + INVALID + ("->nowhere", "->a.pkt", None):
        for n in ("a.pkt", "d/b.c.pkt", "a.txt"):
            for e in earlier:
                tree = dict({"z.pkt": "A"}, **e)
                if kind != "->a.pkt":
                    tree[n] = kind
                else:
                    tree[n] = "->" + os.path.basename(n)
                # a folder without schemas is fine
                yield {"family": "single files", "tree": tree, "args": ["ts", n, "out"], "ok": kind in VALID or kind is None}
    # nothing there
    for p in ("missing", "missing/", "missing.pkt", "in/missing.pkt", "in/a.pkt/", "in/a.pkt/x", "", "in/missing/../a.pkt", "{R}/missing", "./missing/x/y"):
        for e in earlier:
            yield {"family": "missing input", "tree": dict({"in/a.pkt": "A"}, **e), "args": ["ts", p, "out"], "ok": False}
    for e in earlier:
        yield {"family": "empty folder", "tree": dict({"in": None}, **e), "args": ["ts", "in", "out"], "ok": True}
        yield {"family": "empty folder", "tree": dict({"in/d/e": None, "in/n.txt": "NOTE"}, **e), "args": ["ts", "in/", "out"], "ok": True}
    # what may not be read
    if os.getuid() != 0:
        base = {"in/a.pkt": "A", "in/b.pkt": "B", "in/d/c.pkt": "A", "in/d/e/f.pkt": "B", "in/n.txt": "NOTE", "in/hollow": None}
        for p, modes in (("in/a.pkt", (0, 0o200)), ("in/b.pkt", (0,)), ("in/d/c.pkt", (0, 0o333)), ("in/d/e/f.pkt", (0,)), ("in", (0, 0o333, 0o444)), ("in/d", (0, 0o333, 0o444)),
                         ("in/d/e", (0, 0o333, 0o444)), ("in/hollow", (0, 0o333))):
            for mode in modes:
                for e in earlier:
                    for order in range(24):
                        yield {"family": "not readable", "tree": dict(base, **e), "modes": {p: mode}, "args": ["ts", "in", "out"], "ok": False, "order": order}
                    if p.endswith(".pkt"):
                        yield {"family": "not readable", "tree": dict(base, **e), "modes": {p: mode}, "args": ["ts", p, "out"], "ok": False}
        for order in range(6):
            yield {"family": "not readable", "tree": base, "modes": {"in/n.txt": 0}, "args": ["ts", "in", "out"], "ok": True, "order": order}
            yield {"family": "not writable", "tree": base, "modes": {"in": 0o555, "in/d": 0o555, "in/a.pkt": 0o444}, "args": ["ts", "in", "out"], "ok": True, "order": order}
    # whatever surrounds the run
    for tree, ok in (({"in/a.pkt": "A", "in/d/b.pkt": "B"}, True), ({"in/a.pkt": "A", "in/d/b.pkt": "TYPE"}, False), ({"in/a.pkt": "A", "in/d/b.pkt": "SYNTAX", "out/a.ts": "STALE"}, False)):
        for c in elsewhere(tree):
            yield dict(c, ok=ok)
    # arguments
    words = ["ts", "in", "out", "rust", "", "js", "tsx", "--", "-x", "--unknown", "t s", "typescript"]
    base = {"in/a.pkt": "A"}
    for n in range(0, 5):
        for args in itertools.product(words, repeat=n):
            if n == 4 and (not thorough or args[0] != "ts"):
                continue
            rest = [a for a in args]
            if rest[:3] == ["ts", "in", "out"] and n == 3:
                continue
            # -- ends the options; what it means elsewhere is not our business
            if "--" in rest and n > 1:
                continue
            # a valid call needs an input which exists
            if n == 3 and rest[0] == "ts" and rest[1] in ("in",):
                continue
            yield {"family": "arguments", "tree": base, "args": list(args), "ok": False}
    for lang in ("ts", "TS", "Ts", "tS"):
        yield {"family": "arguments", "tree": base, "args": [lang, "in", "out"], "ok": True}
        yield {"family": "arguments", "tree": base, "args": [lang, "missing", "out"], "ok": False}


# C15

def scenarios(thorough):
    s = [
        ("file", {"in/a.pkt": "A"}, ["ts", "in/a.pkt", "out"], {"out/a.ts": "A"}, ["in/a.pkt"]),
        ("file, output exists", {"in/a.pkt": "B", "out/a.ts": "STALE", "out/k": "NOTE"}, ["ts", "in/a.pkt", "out"], {"out/a.ts": "B"}, ["in/a.pkt", "out/k"]),
        ("folder", {"in/a.pkt": "A", "in/n.txt": "NOTE", "in/d/b.pkt": "B"}, ["ts", "in", "out"], {"out/a.ts": "A", "out/d/b.ts": "B"}, []),
        ("folder, output exists", {"in/a.pkt": "A", "in/d/b.pkt": "B", "out/a.ts": "STALE", "out/d/b.ts": "=A", "out/d/k.ts": "NOTE"}, ["ts", "in", "out"],
         {"out/a.ts": "A", "out/d/b.ts": "B"}, []),
        ("deep", {"in/d/e/f/a.pkt": "E", "in/z.pkt": "A", "in/d/y.pkt": "B"}, ["ts", "in", "p/q/out"],
         {"p/q/out/d/e/f/a.ts": "E", "p/q/out/z.ts": "A", "p/q/out/d/y.ts": "B"}, []),
        ("long", {"in/a.pkt": "LONG", "in/b.pkt": "LONG", "out/a.ts": "SHORT"}, ["ts", "in", "out"], {"out/a.ts": "LONG", "out/b.ts": "LONG"}, []),
        ("into the input folder", {"in/a.pkt": "A", "in/d/b.pkt": "B"}, ["ts", "in", "in"], {"in/a.ts": "A", "in/d/b.ts": "B"}, []),
        ("other files", dict({"in/a.pkt": "A", "in/d/b.pkt": "B", "out/a.ts": "STALE"}, **{d + n: "NOTE" for n in DECOYS for d in ("out/", "out/d/")}), ["ts", "in", "out"],
         {"out/a.ts": "A", "out/d/b.ts": "B"}, []),
        ("many files", {"in/%sf%02d.pkt" % ("d/" if i % 8 == 7 else "", i): SMALL[i % 7] for i in range(36)}, ["ts", "in", "out"],
         {"out/%sf%02d.ts" % ("d/" if i % 8 == 7 else "", i): SMALL[i % 7] for i in range(36)}, []),
        ("huge", {"in/a.pkt": "HUGE", "out/a.ts": "STALE"}, ["ts", "in/a.pkt", "out"], {"out/a.ts": "HUGE"}, []),
        ("one invalid", {"in/a.pkt": "A", "in/b.pkt": "TYPE", "in/c.pkt": "B", "out/a.ts": "STALE"}, ["ts", "in", "out"], None, []),
    ]
    for name, tree, args, outs, _ in s:
        for order in range(1 if name.startswith("file") or name in ("other files", "many files", "huge") else 6):
            yield {"family": name, "tree": tree, "args": args, "outs": outs, "order": order}


E_ = {"EIO": 5, "ENOSPC": 28, "EINTR": 4, "EACCES": 13, "EMFILE": 24, "EROFS": 30, "EDQUOT": 122, "ENOMEM": 12, "EAGAIN": 11, "EEXIST": 17, "ELOOP": 40, "ENAMETOOLONG": 36, "EISDIR": 21}
ACTIONS = {
    "open": ["EIO", "EACCES", "EMFILE", "EINTR", "ENOMEM"],
    "create": ["EIO", "ENOSPC", "EACCES", "EMFILE", "EINTR", "EROFS", "EDQUOT", "EISDIR"],
    "read": ["EIO", "EINTR", "short", "short+", "EISDIR"],
    "write": ["EIO", "ENOSPC", "EINTR", "EDQUOT", "short", "short+", "zero", "half", "ENOSPC+", "EIO+"],
    "close": ["EIO", "EINTR"],
    "mkdir": ["EIO", "ENOSPC", "EACCES", "EROFS", "ENOSPC+"],
    "stat": ["EIO", "EACCES", "ENOMEM", "ELOOP", "EIO+"],
    "fstat": ["EIO", "ENOMEM"],
    "opendir": ["EIO", "EACCES", "EMFILE", "ENOMEM"],
    "readdir": ["EIO", "EIO+"],
}


def action(a):
    return str(E_[a.rstrip("+")]) + ("+" if a.endswith("+") else "") if a.rstrip("+") in E_ else a


def calls(root, case):
    """The calls of an undisturbed run: [(name, path below root)]"""
    fresh(root, case)
    log = root + ".log"
    status, err = call(root, case, order=case["order"], log=log)
    with open(log) as f:
        out = [line.rstrip("\n").split(" ", 3) for line in f]
    os.unlink(log)
    return status, [(x[1], os.path.relpath(x[3], root)) for x in out]


def below(path, folder):
    return path == folder or path.startswith(folder + "/")


def judge_fault(root, case):
    """One run with faults, and one without: (what is wrong, how it ended, whether the fault changed anything)"""
    before = fresh(root, case)
    log = root + ".log"
    status, err = call(root, case, faults=case["faults"], order=case["order"], log=log)
    with open(log) as f:
        hits = [line.split(" ", 3) for line in f]
    os.unlink(log)
    injected = [h for h in hits if h[2] != "-"]
    after = snapshot(root)
    killed = status == -signal.SIGKILL
    ended = "killed" if killed else "status 0" if status == 0 else "fails"
    outs = case["outs"] or {}
    if status == "timeout":
        return "the command does not end", ended, True
    # nothing but outputs changes, whatever happens; new files may be left over
    for p, v in before.items():
        if p not in outs and after.get(p, 0) != v:
            return "%r is changed or removed (%s)" % (p, ended), ended, True
    out_args = os.path.normpath(case["args"][2])
    if case["outs"] is None:
        d = difference(after, before)
        if d:
            return "a schema is invalid, but %s (%s)" % (d, ended), ended, True
        if status == 0:
            return "a schema is invalid, but it reports success", ended, True
        return None, ended, bool(injected or case.get("streams"))
    # what had happened to outputs while schemas still had to be read?
    last = hits[-1] if hits else None
    at = os.path.relpath(last[3].rstrip("\n"), root) if last else ""
    reading = last and (last[1] in ("open", "read") and at.endswith(".pkt") and at in before
                        or last[1] in ("opendir", "readdir") and below(at, os.path.normpath(case["args"][1])) and not below(at, out_args))
    if killed and reading:
        d = difference(after, before)
        if d:
            return "killed before all schemas were read, but %s" % d, ended, True
    if status == 0:
        d = difference({p: v for p, v in after.items() if p in outs}, {p: data("=" + k) for p, k in outs.items()})
        if d:
            return "it reports success, but %s" % d, ended, True
    elif not killed and not err.strip():
        return "it fails without a message on standard error", ended, True
    # again
    status, err = call(root, dict(case, streams={}), order=case["order"])
    if status != 0:
        return "running it again fails with status %s: %s" % (status, err[:300]), ended, True
    again = snapshot(root)
    d = difference({p: v for p, v in again.items() if p in outs}, {p: data("=" + k) for p, k in outs.items()})
    if d:
        return "after running it again, " + d, ended, True
    for p, v in before.items():
        if p not in outs and again.get(p, 0) != v:
            return "running it again changes %r" % p, ended, True
    return None, ended, bool(injected or case.get("streams"))


def c15_cases(thorough):
    root = scratch()
    try:
        for case in scenarios(thorough):
            status, trace = calls(root, case)
            if not trace:
                raise build.Error("no call of the command was observed")
            new = strangers(case)
            if new:
                case = dict(case, tree=dict(case["tree"], **new))
                status, trace = calls(root, case)
            case = dict(case, calls=len(trace))
            if case["order"] == 0:
                yield dict(case, faults="")
                # every reason there is
                if thorough and case["family"] != "many files" or case["family"] in ("file", "file, output exists", "folder"):
                    for k, (name, path) in enumerate(trace, 1):
                        # that something is not there is an answer
                        for e in set(range(1, 134)) - ({2, 20} if name == "stat" else set()):
                            yield dict(case, faults="%d:%d" % (k, e), fault="error %d of %s at %s" % (e, name, path))
                # modes and times; the command runs twice
                ins = [p for p in case["tree"] if p.endswith(".pkt")]
                for a in attributes(ins, sorted({os.path.dirname(p) for p in ins} - {os.path.dirname(p) for p in case["outs"] or ()}), [p for p in case["outs"] or () if p in case["tree"]]):
                    if ("modes" in a or len(a["times"]) == 1) and case["family"] not in ("other files", "long", "many files", "huge"):
                        yield dict(case, faults="", **a)
                for out, err in itertools.product(("", "full", "broken"), repeat=2):
                    if out or err:
                        yield dict(case, faults="", streams={k: v for k, v in (("stdout", out), ("stderr", err)) if v})
            for k, (name, path) in enumerate(trace, 1):
                yield dict(case, faults="%d:kill" % k)
                for a in ACTIONS.get(name, ["EIO"]):
                    # byte by byte would take too long
                    if case["family"] == "huge" and a == "short+":
                        continue
                    yield dict(case, faults="%d:%s" % (k, action(a)), fault="%s of %s at %s" % (a, name, path))
            # two faults: any two in short runs, otherwise interrupted or cut short first, then something else
            if case["family"].startswith("file") or thorough and case["family"].startswith("folder") and case["order"] == 0:
                for k, (name, path) in enumerate(trace, 1):
                    for a in ACTIONS.get(name, ["EIO"]):
                        for j in range(k + 1, len(trace) + 6):
                            for b in ("kill", "5", "28", "4", "short", "zero"):
                                yield dict(case, faults="%d:%s,%d:%s" % (k, action(a), j, b))
            elif thorough or case["order"] == 0 and case["family"] != "many files":
                for k, (name, path) in enumerate(trace, 1):
                    soft = [a for a in ("EINTR", "short") if a in ACTIONS.get(name, [])]
                    for a in soft:
                        for j in range(k + 1, min(k + 1 + (40 if thorough else 12), len(trace) + 4)):
                            for b in ("kill", "5", "28", "4"):
                                yield dict(case, faults="%d:%s,%d:%s" % (k, action(a), j, b))
    finally:
        shutil.rmtree(root)
    # real obstacles in the place of outputs
    for tree, obstacle in [
        ({"out": "NOTE"}, "out"), ({"out/d": "NOTE"}, "out/d"), ({"out/a.ts/x": "NOTE"}, "out/a.ts"), ({"out/d/b.ts": None}, "out/d/b.ts"),
        ({"out": "->/dev/full"}, "out"), ({"out/a.ts": "->/dev/full"}, "out/a.ts"), ({"out/d/b.ts": "->/dev/full"}, "out/d/b.ts"),
        ({"out": "->nowhere/else"}, "out"), ({"out/a.ts": "->nowhere/else"}, "out/a.ts"), ({"out/d": "->d"}, "out/d"),
    ]:
        for order in range(6):
            yield {"family": "obstacle", "tree": dict({"in/a.pkt": "A", "in/d/b.pkt": "B", "in/c.pkt": "E"}, **tree), "args": ["ts", "in", "out"], "order": order,
                   "obstacle": obstacle, "outs": {"out/a.ts": "A", "out/d/b.ts": "B", "out/c.ts": "E"}}
    if os.getuid() != 0:
        base = {"in/a.pkt": "A", "in/d/b.pkt": "B", "in/c.pkt": "E"}
        outs = {"out/a.ts": "A", "out/d/b.ts": "B", "out/c.ts": "E"}
        for tree, p, mode in [({"out/a.ts": "STALE"}, "out/a.ts", 0o444), ({"out/d/b.ts": "SHORT"}, "out/d/b.ts", 0o400), ({"out": None}, "out", 0o555), ({"out/d": None}, "out/d", 0o555),
                              ({"out/c.ts": "NOTE", "out/d/b.ts": "NOTE"}, "out/d", 0o444), ({"out/a.ts": "STALE"}, "out", 0)]:
            for order in range(6):
                yield {"family": "not writable", "tree": dict(base, **tree), "modes": {p: mode}, "args": ["ts", "in", "out"], "order": order, "obstacle": p, "outs": outs}


def judge_obstacle(root, case):
    before = fresh(root, case)
    status, err = call(root, case, order=case["order"])
    allow(root, case)
    after = snapshot(root)
    want = {p: data("=" + k) for p, k in case["outs"].items()}
    if status == 0 and not difference({p: v for p, v in after.items() if p in want}, want):
        # it got around the obstacle; other files are still none of its business
        for p, v in before.items():
            if after.get(p, 0) != v and p not in want:
                return "%r is changed or removed" % p, "status 0", True
        return None, "status 0", True
    if status == 0 or not err.strip():
        return "an output cannot be written, but the status is %s with message %r" % (status, err[:100]), "fails", True
    for p, v in before.items():
        # other outputs may have been written
        if after.get(p, 0) != v and (p not in case["outs"] or p == case["obstacle"]):
            return "%r is changed or removed" % p, "fails", True
    if "modes" not in case:
        remove(os.path.join(root, case["obstacle"]))
    status, err = call(root, case, order=case["order"])
    again = snapshot(root)
    d = difference({p: v for p, v in again.items() if p in want}, want)
    return ("without the obstacle, %s (status %s)" % (d, status) if d or status != 0 else None), "fails", True


# C16

def c16_cases(thorough):
    # every state of the files, with every relation of their times: whatever
    # history leads there, a run does not depend on it
    t = 1_600_000_000 * 10 ** 9
    clock = {"older": t, "same": t + 10 ** 9, "newer": t + 2 * 10 ** 9, "future": t + 10 ** 18}
    for a, b in itertools.product([None, "A", "B", "S", "S2", "LONG", "TYPE"], [None, "A", "E", "SYNTAX"]):
        for oa, ob in itertools.product([None, "=A", "=S", "=LONG", "STALE"], [None, "=A", "=E"]):
            tree = {"in": None}
            for p, k in (("in/a.pkt", a), ("in/d/b.pkt", b), ("out/a.ts", oa), ("out/d/b.ts", ob)):
                if k:
                    tree[p] = k
            for ta, tb in itertools.product(clock, repeat=2):
                times = {}
                for p, x in (("in/a.pkt", ta), ("in/d/b.pkt", tb)):
                    if p in tree:
                        times[p] = clock[x]
                for p in ("out/a.ts", "out/d/b.ts"):
                    if p in tree:
                        times[p] = clock["same"]
                yield {"family": "states", "tree": tree, "times": times, "args": ["ts", "in", "out"], "steps": ["run"]}
    # outputs which are nearly right, and schemas of any size, with all relations of their times
    for ti, to in itertools.product(clock, repeat=2):
        times = {"in/a.pkt": clock[ti], "out/a.ts": clock[to]}
        for kind in [k + s for k in NEARLY for s in ("~=", "~+")]:
            for k in ("A", "LONG") if kind.startswith("at ") else SMALL:
                yield {"family": "states", "tree": {"in/a.pkt": k, "out/a.ts": kind + k}, "times": times, "args": ["ts", "in", "out"], "steps": ["run"]}
    for n in range(48, 301):
        for ti in clock:
            for k, o in (("A", "B"), ("B", "A")):
                yield {"family": "sizes", "tree": {"in/a.pkt": "FIT+%s%d" % (k, n), "out/a.ts": "=" + o}, "times": {"in/a.pkt": clock[ti], "out/a.ts": clock["same"]}, "args": ["ts", "in", "out"],
                       "steps": ["run"]}
    # modes and times of any kind
    for k, o in (("A", "=B"), ("S", "=S2"), ("B", "STALE"), ("TYPE", "=A"), ("A", "SHORT")):
        for a in attributes(["in/a.pkt"], ["in"], ["out/a.ts"]):
            for steps in (["run"], ["a=LONG", "run"]):
                if steps == ["run"] or "modes" not in a and len(a["times"]) == 1:
                    yield dict(a, family="modes and times", tree={"in/a.pkt": k, "out/a.ts": o}, args=["ts", "in", "out"], steps=steps)
    # what else a run asks for: the environment, the time, other files
    tree, args = {"in/a.pkt": "A", "in/d/b.pkt": "B"}, ["ts", "in", "out"]
    base = {"tree": tree, "args": args, "steps": ["run"]}
    yield from surroundings(base)
    # where the schema is, and what it is called
    deep = ["/".join("d%d" % i for i in range(n)) for n in list(range(1, 33)) + [64, 100]]
    for d in deep + ["a" * 200, "/".join(["a" * 200] * 5), "a b", "\u00e9", "-d", "d.pkt", "d.ts", ".d"]:
        for k in SMALL:
            yield {"family": "places", "tree": {"in/%s/a.pkt" % d: k, "in/z.pkt": "A"}, "args": ["ts", "in", "out"], "steps": ["run"]}
            yield {"family": "places", "tree": {"in/%s/a.pkt" % d: k}, "args": ["ts", "in/" + d, "out"], "steps": ["run"], "base": "in/" + d}
            yield {"family": "places", "tree": {"in/%s/a.pkt" % d: k}, "args": ["ts", "{R}/in/%s/a.pkt" % d, "out"], "steps": ["run"], "base": "in/" + d}
            yield {"family": "places", "tree": {"in/a.pkt": k}, "args": ["ts", "in", "out/" + d], "steps": ["run"], "out": "out/" + d}
            yield {"family": "places", "tree": {"in/a.pkt": k, d: None}, "cwd": d, "args": ["ts", "{R}/in", "{R}/out"], "steps": ["run"]}
    for w in WORDS:
        for k in SMALL:
            yield {"family": "places", "tree": {"in/%s.pkt" % w: k, "in/%s/a.pkt" % w: "A"}, "args": ["ts", "in", "out"], "steps": ["run"]}
    for n in SIZES:
        yield {"family": "places", "tree": {"in/a.pkt": "PAD+%d" % n, "in/b.pkt": "A"}, "args": ["ts", "in", "out"], "steps": ["run"]}
    # what else is compiled in the same run: pairs and triples of schemas, in several orders of listing
    for ks in itertools.chain(itertools.product(VALID, repeat=2), itertools.product(SMALL, repeat=3)):
        for order in range(2 if len(ks) == 2 else 6 if thorough else 2):
            yield {"family": "company", "tree": {"in/%s.pkt" % c: k for c, k in zip("abc", ks)}, "order": order, "args": ["ts", "in", "out"], "steps": ["run"]}
    # runs which are killed, before and after the schemas change
    for first, then in itertools.product(["run", "a=S2", "a=LONG", "a=TYPE", "a=", "b=E", "file", "clean"], repeat=2):
        for k in range(1, 31):
            yield {"family": "killed", "tree": {"in/a.pkt": "S", "in/d/b.pkt": "B"}, "args": ["ts", "in", "out"], "steps": ["%s!%d" % (first, k), then]}
            yield {"family": "killed", "tree": {"in/a.pkt": "S", "in/d/b.pkt": "B"}, "args": ["ts", "in", "out"], "steps": ["run", "%s!%d" % (first, k), then]}
    # histories, as they happen
    ops = ["a=S", "a=S2", "a=LONG", "a=TYPE", "a=", "b=E", "b=", "file", "clean"]
    depth = 5 if thorough else 4
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            yield {"family": "histories", "tree": {"in/a.pkt": "S", "in/d/b.pkt": "B"}, "args": ["ts", "in", "out"], "steps": ["run"] + list(h)}


# variables which programs look at
VARIABLES = """CI DEBUG RUST_LOG RUST_BACKTRACE RUST_LIB_BACKTRACE NO_COLOR CLICOLOR FORCE_COLOR COLORTERM TERM COLUMNS LINES LANG LANGUAGE LC_ALL LC_CTYPE TZ HOME USER USERNAME LOGNAME SHELL PWD OLDPWD
    PATH TMPDIR TEMP TMP EDITOR PAGER HOSTNAME HOST NODE_ENV NODE_PATH PACKETC PACKETC_CONFIG PACKETC_OUT PACKETC_DEBUG PACKETC_LANG PACKETC_CACHE PACKETC_FLAGS XDG_CONFIG_HOME XDG_CACHE_HOME
    SOURCE_DATE_EPOCH CARGO CARGO_HOME CARGO_MANIFEST_DIR CARGO_PKG_VERSION OUT_DIR PROFILE VERBOSE QUIET DISPLAY SSH_TTY GITHUB_ACTIONS TRAVIS BUILD_NUMBER ENV ENVIRONMENT PRODUCTION VERSION""".split()
ANSWERS = [None, "", "0", "1", "true", "false", "never", "always", "full", "debug", "C", "de_DE.UTF-8", "UTC", "Asia/Tokyo", "dumb", "40", "{R}/in", "{R}/nowhere", "2.0.0", "\u00e9"]


def times():
    """Every month, weekday, hour and minute, and the ends of what a number can hold"""
    day = 86400
    out = {0, 1, 59, 951782400, 10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 4102444800, 10 ** 10, 253402300799}
    begin = 1767225600  # 2026
    out |= {begin + d * day + s for d in range(0, 1461, 5) for s in (0, day - 1)} | {begin + d * day for d in range(62)}
    out |= {begin + h * 3600 for h in range(24)} | {begin + m * 60 for m in range(60)} | {begin + s for s in range(60)}
    return sorted(out)


def surroundings(base):
    root = scratch()
    try:
        fresh(root, base)
        asked = root + ".asked"
        call(root, dict(base, env={"SHIM_ASKED": asked}), log=root + ".log")
        names = set()
        if os.path.exists(asked):
            with open(asked, errors="surrogateescape") as f:
                names = set(f.read().split("\n")) - {""}
            os.unlink(asked)
        # files it looked for in vain
        around = set()
        for p in list(base["tree"]) + ["out/a.ts", "out/d/b.ts"]:
            while p:
                around.add(p)
                p = os.path.dirname(p)
        files = set()
        with open(root + ".log", "rb") as f:
            for line in f:
                x = line.rstrip(b"\n").split(b" ", 3)
                p = os.path.relpath(os.path.normpath(os.fsdecode(x[3])), root)
                if x[1] in (b"open", b"stat", b"opendir", b"realpath") and p not in around and p != "." and not p.startswith(".."):
                    files.add(p)
        os.unlink(root + ".log")
    finally:
        shutil.rmtree(root)
    for n in sorted({n for n in names if n[0] != "@"} | set(VARIABLES)):
        if n.startswith("SHIM_") or n in ("LD_PRELOAD", "LD_LIBRARY_PATH"):
            continue
        for v in ANSWERS:
            yield dict(base, family="environment", env={n: v})
    for v in ANSWERS[1:]:
        yield dict(base, family="environment", env={n: v for n in VARIABLES})
    if "@clock" in names:
        for t in times():
            yield dict(base, family="time", env={"SHIM_CLOCK": str(t)})
    for n in [1, 2, 7, 8, 99, 100, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 4194303] if "@pid" in names else []:
        yield dict(base, family="process", env={"SHIM_PID": str(n)})
    for n in ["a", "build", "localhost", "h.example", "x" * 64] if "@host" in names else []:
        yield dict(base, family="process", env={"SHIM_HOST": n})
    parts = "dry dry-run test check watch debug verbose quiet fmt lint ts rs js py json schema gen compile help version old new dev beta nightly static server lsp wasm musl x86_64 1 2 0.3.4 bin exe".split()
    for n in ["packetc", "./packetc", "", "x/y/PACKETC.EXE", "a b", "-packetc", "-", "/", "sh", "busybox", "cargo", "rustc", "x" * 300, "\u00e9"] + [a % b for b in parts for a in ("%s", "packetc-%s", "packetc_%s", "packetc.%s", "%s-packetc")]:
        yield dict(base, family="process", argv0=n)
    # what is on the other end, and what the process may do
    for streams in itertools.product((None, "terminal", "broken"), repeat=3):
        yield dict(base, family="process", streams={n: k for n, k in zip(("stdin", "stdout", "stderr"), streams) if k})
    for n in (0, 0o2, 0o7, 0o22, 0o27, 0o77):
        yield dict(base, family="process", umask=n)
    for n in list(range(4, 20)) + [64, 1024]:
        yield dict(base, family="process", limits={"RLIMIT_NOFILE": n})
    for n in (2 ** 27, 2 ** 28, 2 ** 30):
        yield dict(base, family="process", limits={"RLIMIT_AS": n})
    for n in (1, 2, 10):
        yield dict(base, family="process", limits={"RLIMIT_CPU": n})
    for n in (65536, 2 ** 18, 2 ** 20, 2 ** 26):
        yield dict(base, family="process", limits={"RLIMIT_STACK": n})
    for n in (512, 4096, 65536):
        yield dict(base, family="process", limits={"RLIMIT_FSIZE": n})
    yield dict(base, family="process", nice=5)
    for p in sorted(files):
        for k in ("NOTE", "A", "EMPTY", "=B", None):
            tree = dict(base["tree"], **{p: k})
            if not any(below(q, p) and q != p for q in tree) and not any(below(p, q) and q != p and v is not None for q, v in base["tree"].items()):
                yield dict(base, family="other files", tree=tree)


def elsewhere(tree):
    """Surroundings in which a run has no reason to end differently"""
    for c in surroundings({"tree": tree, "args": ["ts", "in", "out"]}):
        ends = c.get("streams", {})
        if "limits" not in c and c["family"] != "other files" and "stderr" not in ends and ends.get("stdout") != "broken":
            yield c


def judge_history(root, case):
    """Steps change something and run the command; those with `!k` are killed at their k-th call"""
    fresh(root, case)
    now = {p: k for p, k in case["tree"].items() if k and p.startswith("in/") and p.endswith(".pkt")}
    paths = {"a": "in/a.pkt", "b": "in/d/b.pkt"}
    for i, step in enumerate(case["steps"]):
        step, _, dies = step.partition("!")
        run = dict(case)
        todo = dict(now)
        if step == "file":
            run["args"] = ["ts", "in/a.pkt", "out"]
            todo = {"in/a.pkt": now.get("in/a.pkt", "MISSING")}
        elif step == "clean":
            if os.path.isdir(os.path.join(root, "out")):
                shutil.rmtree(os.path.join(root, "out"))
        elif step != "run":
            name, key = step.split("=")
            p = paths[name]
            if key:
                os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
                with open(os.path.join(root, p), "wb") as f:
                    f.write(data(key))
                now[p] = key
            elif p in now:
                os.unlink(os.path.join(root, p))
                del now[p]
            todo = dict(now)
        status, err = call(root, run, faults=dies and dies + ":kill", order=case.get("order"))
        after = snapshot(root)
        at = "step %d (%s): " % (i + 1, step)
        if status == "timeout":
            return at + "the command does not end"
        # only successful runs say anything about outputs
        if status != 0:
            continue
        if any(k not in VALID and not k.startswith(("PAD+", "FIT+")) for k in todo.values()):
            continue
        for p, k in todo.items():
            o = case.get("out", "out") + p[len(case.get("base", "in")):-4] + ".ts"
            if after.get(o) != data("=" + k):
                return at + "%r is %s instead of the module of schema %s" % (o, show(after[o]) if o in after else "missing", k)
    return None


# C20

PAIRS = [
    ("same file", {"in/a.pkt": "A"}, [["in/a.pkt", "out"]] * 2, {"out/a.ts": "A"}, 3),
    ("same file, output exists", {"in/a.pkt": "B", "out/a.ts": "STALE", "out/k": "NOTE"}, [["in/a.pkt", "out"]] * 2, {"out/a.ts": "B"}, 3),
    ("same file, new folders", {"in/a.pkt": "A"}, [["in/a.pkt", "p/q/out"]] * 2, {"p/q/out/a.ts": "A"}, 2),
    ("same folder", {"in/a.pkt": "A", "in/d/b.pkt": "B"}, [["in", "out"]] * 2, {"out/a.ts": "A", "out/d/b.ts": "B"}, 2),
    ("same folder, output exists", {"in/a.pkt": "A", "in/d/b.pkt": "B", "out/a.ts": "STALE", "out/d/b.ts": "=LONG", "out/d/k.ts": "NOTE"}, [["in", "out"]] * 2,
     {"out/a.ts": "A", "out/d/b.ts": "B"}, 2),
    ("same folder, in place", {"in/a.pkt": "A", "in/d/b.pkt": "B"}, [["in", "in"]] * 2, {"in/a.ts": "A", "in/d/b.ts": "B"}, 2),
    ("two files, one new folder", {"in/a.pkt": "A", "in/b.pkt": "B"}, [["in/a.pkt", "out"], ["in/b.pkt", "out"]], {"out/a.ts": "A", "out/b.ts": "B"}, 3),
    ("two files, nested new folders", {"in/a.pkt": "A", "in/b.pkt": "B"}, [["in/a.pkt", "out/x"], ["in/b.pkt", "out/x/y"]], {"out/x/a.ts": "A", "out/x/y/b.ts": "B"}, 3),
    ("two folders, one output", {"i/d/a.pkt": "A", "j/d/b.pkt": "B", "j/c.pkt": "E", "out/k.ts": "NOTE"}, [["i", "out"], ["j", "out"]], {"out/d/a.ts": "A", "out/d/b.ts": "B", "out/c.ts": "E"}, 2),
    ("a file of the folder", {"in/a.pkt": "A", "in/b.pkt": "B"}, [["in", "out"], ["in/b.pkt", "out"]], {"out/a.ts": "A", "out/b.ts": "B"}, 2),
    ("into the input of the other", {"i/a.pkt": "A", "j/b.pkt": "B"}, [["i", "j"], ["j", "out"]], {"j/a.ts": "A", "out/b.ts": "B"}, 2),
    ("one invalid", {"i/a.pkt": "A", "i/b.pkt": "TYPE", "j/a.pkt": "B", "out/a.ts": "STALE"}, [["i", "out"], ["j", "out"]], {"out/a.ts": "B"}, 2),
    ("one invalid, new folder", {"i/a.pkt": "SYNTAX", "j/a.pkt": "B"}, [["i/a.pkt", "out"], ["j/a.pkt", "out"]], {"out/a.ts": "B"}, 3),
    ("one invalid, new folders", {"i/a.pkt": "A", "i/d/b.pkt": "TYPE", "j/d/c.pkt": "B"}, [["i", "p/out"], ["j", "p/out"]], {"p/out/d/c.ts": "B"}, 2),
    ("one missing, new folder", {"j/a.pkt": "B"}, [["i", "out"], ["j", "out"]], {"out/a.ts": "B"}, 3),
    ("both invalid", {"i/a.pkt": "SYNTAX", "j/a.pkt": "TYPE", "out/a.ts": "STALE"}, [["i", "out"], ["j", "out"]], {}, 2),
    ("two outputs of one schema", {"in/a.pkt": "A"}, [["in/a.pkt", "out"], ["in/a.pkt", "p/q"]], {"out/a.ts": "A", "p/q/a.ts": "A"}, 2),
    ("same name, two schemas", {"i/a.pkt": "A", "j/a.pkt": "B"}, [["i", "o"], ["j", "p"]], {"o/a.ts": "A", "p/a.ts": "B"}, 2),
    ("long", {"in/a.pkt": "LONG", "out/a.ts": "SHORT"}, [["in/a.pkt", "out"]] * 2, {"out/a.ts": "LONG"}, 2),
]


def schedules(lengths, switches):
    """All ways to choose who starts and up to so many places to switch, and to whom: (first, [(step, how many runs further)])"""
    n = len(lengths)

    def go(current, left, step, plan):
        yield list(plan)
        if len(plan) == switches:
            return
        for k in range(1, left[current]):
            for to in range(1, n):
                if left[(current + to) % n] > 0:
                    rest = list(left)
                    rest[current] -= k
                    yield from go((current + to) % n, rest, step + k, plan + [(step + k, to)])
    for first in range(n):
        for plan in go(first, lengths, 0, []):
            yield first, plan


def c20_cases(thorough):
    root = scratch()
    try:
        for name, tree, args, outs, switches in PAIRS:
            base = {"family": name, "tree": tree, "runs": args, "outs": outs}
            for n in (2, 3) if name.startswith("same file") and (thorough or name == "same file") else (2,):
                runs = (args * n)[:n]
                # a run may make a few more calls if it finds what another one made
                lengths = [len(calls(root, dict(base, args=["ts"] + a, order=0))[1]) + 2 for a in runs]
                for first, plan in schedules(lengths, 2 if n == 3 else switches + thorough):
                    yield dict(base, runs=runs, first=first, plan=plan)
                # one of them dies on the way
                if n == 2 and len({os.path.join(*a) for a in runs}) == 2 and name != "a file of the folder" and not any(k in INVALID for k in tree.values()) and not name.startswith("one missing"):
                    for victim in (0, 1):
                        for at in range(1, lengths[victim] - 1):
                            for first, plan in schedules(lengths, 2 if thorough else 1):
                                yield dict(base, runs=runs, first=first, plan=plan, kill=[victim, at])
    finally:
        shutil.rmtree(root)


class Turn:
    """A run which waits for its turn before each call on files"""

    def __init__(self, root, i, args, faults):
        r, self.go = os.pipe()
        self.at, w = os.pipe()
        env = environment(root, faults, None, root + ".log%d" % i)
        env["SHIM_TURN"] = "%d,%d" % (r, w)
        self.err = open(root + ".err%d" % i, "w+b")
        self.p = subprocess.Popen([_state["exe"], "ts"] + args, cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, pass_fds=(r, w))
        os.close(r)
        os.close(w)
        self.state = "running"

    def wait(self, seconds):
        """Until it waits for its turn or has ended"""
        while self.state == "running":
            if not select.select([self.at], [], [], seconds)[0]:
                return False
            self.state = "waiting" if os.read(self.at, 1) else "ended"
        return True

    def next(self):
        self.state = "running"
        os.write(self.go, b"x")

    def close(self):
        os.close(self.go)
        os.close(self.at)
        if self.state != "ended":
            self.p.kill()
        self.p.wait()
        self.err.seek(0)
        err = self.err.read().decode(errors="replace")
        self.err.close()
        return self.p.returncode, err


def judge_together(root, case):
    before = fresh(root, case)
    n = len(case["runs"])
    kill = case.get("kill")
    runs = [Turn(root, i, a, "%d:kill" % kill[1] if kill and kill[0] == i else "") for i, a in enumerate(case["runs"])]
    what, used = None, 0
    try:
        current, step, plan = case["first"], 0, list(case["plan"])
        for r in runs:
            r.wait(30)
        while any(r.state != "ended" for r in runs):
            if plan and step >= plan[0][0]:
                current = (current + plan[0][1]) % n
                used += 1 if runs[current].state != "ended" else 0
                plan.pop(0)
                for p, v in snapshot(root).items():
                    if p in before and p not in case["outs"] and v != before[p]:
                        return "%r is changed before step %d" % (p, step + 1), True
            ready = [(current + k) % n for k in range(n) if runs[(current + k) % n].state == "waiting"]
            if ready:
                current = ready[0]
                step += 1
                runs[current].next()
                # it may have to wait for another one
                runs[current].wait(5 if any(r.state == "waiting" for r in runs) else 30)
            elif not any(r.wait(30) for r in runs if r.state == "running"):
                what = "the runs do not end"
                break
    finally:
        ends = [r.close() for r in runs]
        for i in range(n):
            with open(root + ".log%d" % i, "rb") as f:
                _state["calls"] = _state.get("calls", 0) + sum(1 for _ in f)
            os.unlink(root + ".log%d" % i)
            os.unlink(root + ".err%d" % i)
    after = snapshot(root)
    if what:
        return what, True
    dead = kill and ends[kill[0]][0] == -signal.SIGKILL
    outs = dict(case["outs"])
    for i, (status, err) in enumerate(ends):
        mine = [k for p, k in case["tree"].items() if below(p, case["runs"][i][0])]
        ok = mine and not any(k in INVALID for k in mine)
        if dead and i == kill[0]:
            # it leaves what it likes at its own outputs
            mine = [o for o in outs if any(o == case["runs"][i][1] + p[len(os.path.dirname(case["runs"][i][0]) if case["runs"][i][0].endswith(".pkt") else case["runs"][i][0]):-4] + ".ts"
                                           for p in case["tree"] if p.endswith(".pkt") and below(p, case["runs"][i][0]))]
            for o in mine:
                del outs[o]
                after.pop(o, None)
                before = {p: v for p, v in before.items() if p != o}
        elif (status == 0) != bool(ok):
            return "run %d ends with status %s: %s" % (i + 1, status, err[:300]), True
        elif status != 0 and not err.strip():
            return "run %d fails without a message on standard error" % (i + 1), True
    want = expected(before, outs)
    if dead:
        # folders and left-overs of the one which died
        after = {p: v for p, v in after.items() if p in want}
    d = difference(after, want)
    return d, used == len(case["plan"])


# Running

def work(job):
    """Judges a share of the cases: a partial report"""
    prop, tier, part, parts = job
    r = {"counts": {}, "outcomes": {}, "samples": [], "violations": []}

    def count(kind, key, n=1):
        r[kind][key] = r[kind].get(key, 0) + n
    drop()
    os.umask(0o022)
    root = scratch()
    try:
        for i, case in enumerate(CASES[prop](tier == "thorough")):
            if i % parts != part:
                continue
            what, ended, nontrivial = judge(prop, root, case)
            count("outcomes", "%s: %s" % (case["family"], ended) if prop == "C15" else case["family"])
            if prop == "C15":
                count("counts", "traces")
                count("counts", "nontrivial", int(nontrivial))
                count("counts", "runs", 1 if case["outs"] is None else 2)
            else:
                count("counts", "traces")
                if prop == "C20":
                    count("counts", "schedules which end before a switch", int(not nontrivial))
            if i % 211 == part:
                r["samples"].append(json.dumps({k: v for k, v in case.items() if k != "outs"}, ensure_ascii=True)[:600])
            if what:
                r["violations"].append({"what": what, "input": json.dumps(case), "case": case, "steps": []})
                if len(r["violations"]) >= 10:
                    break
    finally:
        open_up(root)
        shutil.rmtree(root)
    r["seen"] = _state.get("seen", set())
    r["counts"]["calls" if prop == "C15" else "transitions"] = _state.get("calls", 0)
    return r


def judge(prop, root, case):
    if prop == "C15":
        return judge_obstacle(root, case) if "obstacle" in case else judge_fault(root, case)
    if prop == "C16":
        return judge_history(root, case), "", True
    if prop == "C20":
        what, distinct = judge_together(root, case)
        return what, "", distinct
    return judge_run(prop, root, case), "", True


CASES = {"C13": c13_cases, "C14": c14_cases, "C15": c15_cases, "C16": c16_cases, "C20": c20_cases}
RULE = "A fault is non-trivial if it was injected into a call which the run made, or if the obstacle was in the way of an output."


def run(prop, tier):
    prepare()
    n = os.cpu_count() or 4
    out = {"counts": {}, "outcomes": {}, "samples": [], "violations": [], "rule": RULE,
           "assumptions": ["File systems behave as Linux tmpfs does; a kill loses nothing that was written."] if prop == "C15" else []}
    seen = set()
    try:
        with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(work, [(prop, tier, i, n) for i in range(n)], 1):
                for kind in ("counts", "outcomes"):
                    for k, v in r[kind].items():
                        out[kind][k] = out[kind].get(k, 0) + v
                seen |= r["seen"]
                out["samples"] += r["samples"]
                out["violations"] += r["violations"]
    finally:
        clean()
    out["counts"]["trees" if prop == "C15" else "states"] = len(seen)
    out["samples"] = sorted(out["samples"])[::max(1, len(out["samples"]) // 8)][:8]
    out["violations"].sort(key=lambda v: len(v["input"]))
    return out


def again(job):
    drop()
    root = scratch()
    try:
        return judge(job[0], root, job[1]["case"])[0]
    finally:
        open_up(root)
        shutil.rmtree(root)


def replay(prop, v):
    prepare()
    try:
        with multiprocessing.get_context("fork").Pool(1) as pool:
            return pool.apply(again, ((prop, v),))
    finally:
        clean()
