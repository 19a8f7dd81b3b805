"""P04: crash and fault safety of SRR edits.  SrrEditCrash.tla is checked for every fault and
crash point of the protocol; the real edits are run with a fault or a crash injected at every
file operation they perform, and the recorded directory snapshots are checked by SrrEditTrace.tla."""
import json
import os
import random
import resource
import signal
import sys
from . import srrmodel as M
from .prop_p03 import A, S, V, O
from .core import Failure, check, same
from .tlc import TLCError

CASES = [
    # (name, parts, op)
    ("add", [A("pyReScene"), S("x.nfo", 3), V("r.rar", 1), V("r.r00", 0), O("m.mkv", 1)],
     {"o": "add", "req": ["a.nfo", "sub/b.bin"], "paths": True}),
    ("addend", [A("a music release srr"), S("x.nfo", 4)], {"o": "add", "req": ["sub/b.bin"], "paths": False}),
    ("addsmall", [A("pyReScene"), V("r.rar", 0)], {"o": "add", "req": ["a.nfo"], "paths": True}),
    ("remove", [A("pyReScene"), S("x.nfo", 3), S("sub/b.bin", 4), V("r.rar", 2), V("r.r00", 3)], {"o": "remove", "names": ["x.nfo"]}),
    ("removebig", [A("pyReScene"), S("x.nfo", 4), S("y.nfo", 5), S("z.nfo", 4), V("r.rar", 2)], {"o": "remove", "names": ["y.nfo", "q"]}),
    ("removeall", [A("pyReScene"), S("x.nfo", 1), S("y.nfo", 0), V("r.rar", 2)], {"o": "remove", "names": ["x.nfo", "y.nfo"]}),
    ("rename", [A("pyReScene"), S("x.nfo", 3), S("z.bin", 4), V("r.rar", 0)], {"o": "rename", "a": "x.nfo", "b": "sub/new name.nfo"}),
    ("renamebig", [A("pyReScene"), S("a.bin", 4), S("z.bin", 4), S("y.bin", 5), V("r.rar", 0)], {"o": "rename", "a": "z.bin", "b": "q"}),
]
FILES = {"a.nfo": 3, "sub/b.bin": 4}


def data_of(d, n=""):
    return M.content(d)


def expected(parts, op):
    if op["o"] == "add":
        p = next((i for i, x in enumerate(parts) if x["k"] == "vol"), len(parts))
        new = [S(r if op["paths"] else r.split("/")[-1], FILES[r]) for r in op["req"]]
        return parts[:p] + new + parts[p:]
    if op["o"] == "remove":
        return [x for x in parts if not (x["k"] == "st" and x["n"] in op["names"])]
    i = next(i for i, x in enumerate(parts) if x["k"] == "st" and x["n"] == op["a"])
    return parts[:i] + [S(op["b"], parts[i]["d"])] + parts[i + 1:]


def snapshot(folder, old, new):
    tmp = "none"
    srr = "none"
    for f in sorted(os.listdir(folder)):
        try:
            with open(os.path.join(folder, f), "rb") as fh:
                data = fh.read()
        except OSError:
            continue
        c = "old" if data == old else "new" if data == new else "part"
        if f == "x.srr":
            srr = c
        else:
            rank = {"none": 0, "part": 1, "old": 2, "new": 3}
            if rank[c] > rank[tmp]:
                tmp = c
    return {"srr": srr, "tmp": tmp}


EVENTS = ("open", "os.remove", "os.rename", "os.link", "os.truncate", "os.chmod", "os.symlink", "os.unlink", "shutil.move",
          "shutil.copyfile")


def run_edit(folder, src, op, fault, old, new):
    """In a forked child: perform the edit with `fault` = ("event", k, "error"|"interrupt"|"crash"),
    ("write", limit, "error"|"crash") or None.  Returns trace dict."""
    log = os.path.join(os.path.dirname(folder), "log.json")
    if os.path.exists(log):
        os.unlink(log)
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            import rescene.main as rm
            state = {"n": 0, "on": True, "snaps": [], "busy": False}
            logfd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)

            def emit(obj):
                os.write(logfd, (json.dumps(obj) + "\n").encode())

            def hook(event, args):
                if state["busy"] or not state["on"] or event not in EVENTS:
                    return
                paths = [a for a in args[:2] if isinstance(a, (str, bytes))]
                paths = [os.fsdecode(p) for p in paths]
                if not any(os.path.dirname(os.path.abspath(p)) == folder for p in paths):
                    return
                state["busy"] = True
                try:
                    state["n"] += 1
                    n = state["n"]
                    if not (fault and fault[0] == "write"):
                        emit({"snap": snapshot(folder, old, new), "ev": event})
                finally:
                    state["busy"] = False
                if fault and fault[0] == "event" and fault[1] == n:
                    if fault[2] == "crash":
                        os._exit(77)
                    if fault[2] == "interrupt":
                        raise KeyboardInterrupt
                    raise OSError(28, "injected fault")
            sys.addaudithook(hook)
            if fault and fault[0] == "write":
                if fault[2] == "crash":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], resource.RLIM_INFINITY))
            res = "ok"
            try:
                srr = os.path.join(folder, "x.srr")
                if op["o"] == "add":
                    rm.add_stored_files(srr, list(op["req"]), src, op["paths"])
                elif op["o"] == "remove":
                    rm.remove_stored_files(srr, list(op["names"]))
                else:
                    rm.rename_stored_file(srr, op["a"], op["b"])
            except BaseException:
                res = "error"
            state["on"] = False
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            emit({"res": res, "n": state["n"]})
            os._exit(0)
        except BaseException:
            os._exit(99)
    _, st = os.waitpid(pid, 0)
    snaps, res, n = [], "crash", None
    with open(log) as f:
        for line in f:
            o = json.loads(line)
            if "snap" in o:
                snaps.append(o["snap"])
            else:
                res, n = o["res"], o["n"]
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99:
        raise Failure("the edit could not be run at all")
    snaps.append(snapshot(folder, old, new))
    return {"snaps": snaps, "outcome": res, "n": n, "files": sorted(os.listdir(folder))}


def prepare(d, parts):
    folder, src = os.path.join(d, "w"), os.path.join(d, "src")
    for x in (folder, src):
        if not os.path.isdir(x):
            os.makedirs(x)
    for f in os.listdir(folder):
        os.unlink(os.path.join(folder, f))
    for p, c in FILES.items():
        q = os.path.join(src, *p.split("/"))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(M.content(c))
    with open(os.path.join(folder, "x.srr"), "wb") as f:
        f.write(M.srr_bytes(parts, data_of))
    return folder, src


def case_faults(case, d):
    import rescene.main  # noqa: F401 (children inherit the imported module)
    import tempfile  # noqa: F401
    _, parts, op = next(c for c in CASES if c[0] == case["name"])
    old = M.srr_bytes(parts, data_of)
    new = M.srr_bytes(expected(parts, op), data_of)
    folder, src = prepare(d, parts)
    fault = tuple(case["fault"]) if case["fault"] else None
    t = run_edit(folder, src, op, fault, old, new)
    if fault is None:
        check(t["outcome"] == "ok", "fault-free edit failed: %s", t)
    with open(os.path.join(case["out"], "%d.json" % case["i"]), "w") as f:
        json.dump(t, f)
    last = t["snaps"][-1]
    if fault and fault[2] == "interrupt" and t["outcome"] == "error" and last["srr"] == "new":
        t["outcome"] = "ok"     # interrupted when everything was in place already
    check(last["srr"] != "part", "NeverTorn: a truncated or mixed file is found under the SRR's name (%s)", t)
    check(last["srr"] in ("old", "new") or last["tmp"] in ("old", "new"), "Recoverable: neither the old nor the new SRR is on disk (%s)", t)
    if t["outcome"] == "error":
        check(last == {"srr": "old", "tmp": "none"}, "FaultKeepsOld: after an error the directory holds %s", t)
    if t["outcome"] == "ok":
        check(last == {"srr": "new", "tmp": "none"}, "SuccessIsNew: after success the directory holds %s", t)
    return {t["outcome"]: 1, "events": t["n"] or 0}


PARTS = {"fault": case_faults}


def limits(new, quick, rng):
    n = len(new)
    pts = {0, 1, 7, 20, n // 3, n // 2, n - 1, 8191, 8192, 8193, 4096, 65536, 70000}
    extra = 6 if quick else 60
    pts |= {rng.randrange(n) for _ in range(extra)}
    return sorted(p for p in pts if p < n)


def run(ctx):
    for ch in (1, 2, 4):
        ctx.tlc("SrrEditCrash", constants=dict(Protocol="atomic", Chunks=ch), invariants=["Safe"])
    r = ctx.tlc("SrrEditCrash", constants=dict(Protocol="removefirst", Chunks=2), invariants=["Safe"], expect_fail=True)
    if r.accepted:
        raise TLCError("SrrEditCrash no longer distinguishes the protocols")
    out = os.path.join(ctx.scratch, "tr")
    os.makedirs(out)
    # dry run: number of file operations per edit
    cases = [{"name": c[0], "fault": None, "i": i, "out": out} for i, c in enumerate(CASES)]
    ctx.replay(case_faults, cases, "fault", count_traces=False)
    faults = []
    for i, (name, parts, op) in enumerate(CASES):
        p = os.path.join(out, "%d.json" % i)
        if not os.path.exists(p):
            continue
        n = json.load(open(p))["n"]
        new = M.srr_bytes(expected(parts, op), data_of)
        for k in range(1, n + 1):
            for kind in ("error", "interrupt", "crash"):
                faults.append((name, ("event", k, kind)))
        for lim in limits(new, ctx.quick, ctx.rng):
            for kind in ("error", "crash"):
                faults.append((name, ("write", lim, kind)))
    base = len(CASES)
    cases = [{"name": nm, "fault": list(f), "i": base + j, "out": out} for j, (nm, f) in enumerate(faults)]
    ctx.replay(case_faults, cases, "fault", count_traces=False)
    lines, meta = [], []
    for c in [{"name": x[0], "fault": None, "i": i, "out": out} for i, x in enumerate(CASES)] + cases:
        p = os.path.join(out, "%d.json" % c["i"])
        if os.path.exists(p):
            t = json.load(open(p))
            lines.append(json.dumps({"snaps": t["snaps"], "outcome": t["outcome"]}))
            meta.append(c)
    if not lines:
        return
    r = ctx.tlc("SrrEditTrace", constants=dict(TraceFile="trace.ndjson"), extra_files={"trace.ndjson": "\n".join(lines) + "\n"})
    ctx.traces += len(lines)
    for b in r.behaviours:
        c = meta[b["trace"] - 1]
        ctx.fail("directory snapshots of %s with fault %s rejected at step %d: %s %s" % (c["name"], c["fault"], b["step"], b["clause"], b["snap"]),
                 dict(c, out="/tmp"), part="fault")
    ctx.assumptions += ["file operations are those Python audits (open, remove, rename, link, truncate) plus every write(2) via RLIMIT_FSIZE",
                        "no fsync model: a crash is a process kill, not a power failure"]
