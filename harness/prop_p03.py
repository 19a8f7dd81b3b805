"""P03: stored-file edits (spec/SrrStore.tla behaviours replayed; recorded histories checked by
spec/SrrStoreTrace.tla)."""
import json
import os
import random
from . import rarset, srrmodel as M
from .core import Failure, check, same, stable_hash
from .tlc import Set, Fn, Raw

A = lambda n: {"k": "app", "n": n, "d": 0}
S = lambda n, d: {"k": "st", "n": n, "d": d}
V = lambda n, d: {"k": "vol", "n": n, "d": d}
O = lambda n, d: {"k": "oso", "n": n, "d": d}

DISK = {"a.nfo": 1, "A.nfo": 3, "e.txt": 0, "sub/a.nfo": 2, "sub/deep/q.jpg": 4, "d e.sfv": 6, "b:d.txt": 7, "\u00fc.nfo": 8,
        "[x]*.nfo": 9}
MISSING = ["zz.nfo", "sub/none.txt"]
BASE = {p: p.split("/")[-1] for p in list(DISK) + MISSING}
INITS = [
    [A("app"), V("r.rar", 0), V("r.r00", 1), O("m.mkv", 1)],
    [A("x"), S("a.nfo", 3), S("sub/a.nfo", 5), V("r.rar", 2), V("r.r00", 3)],
    [A("a long application name"), S("n.nfo", 1)],
    [A(""), V("only.rar", 0)],
    [A("\u00e9-app"), S("a.nfo", 1), V("p1.rar", 4), S("late.txt", 4), V("p2.rar", 5), O("m.avi", 2), O("n.avi", 3)],
    [A("first generation"), S("a.nfo", 2), V("o.rar", 7), V("o.r00", 8), V("o.r01", 2), V("o.r02", 7)],
    [A("dup"), S("d.txt", 1), S("d.txt", 3), V("q.rar", 6)],
]
REQS = [["a.nfo"], ["A.nfo", "e.txt"], ["sub/a.nfo"], ["sub/deep/q.jpg", "d e.sfv"], ["zz.nfo"], ["zz.nfo", "e.txt"],
        ["b:d.txt"], ["e.txt", "b:d.txt"], ["\u00fc.nfo", "[x]*.nfo"], []]
REM = [["a.nfo"], ["sub/a.nfo", "e.txt"], ["nope"], ["d.txt", "late.txt"], ["A.nfo", "n.nfo", "q.jpg", "sub/deep/q.jpg"]]
REN = [["a.nfo", "new/b.nfo"], ["e.txt", "e2.txt"], ["d.txt", "d2.txt"], ["late.txt", "a.nfo"], ["gone", "x"], ["sub/a.nfo", "A.nfo"],
       ["a.nfo", "ba:d"], ["new/b.nfo", "a.nfo"], ["\u00fc.nfo", "\u4e2d.nfo"]]
BADNAMES = ["b:d.txt", "[x]*.nfo", "ba:d"]
ILLEGAL = set(BADNAMES)


def consts(depth, inits=INITS, reqs=REQS, rem=REM, ren=REN):
    return dict(Inits=Set(inits), Disk=Fn(DISK), Reqs=Set(reqs), RemSets=Set([frozenset(r) for r in rem]),
                Renames=Set(ren), Bad=set(BADNAMES), Base=Fn(BASE), Depth=depth)


INVS = ["RestUntouched", "RefusalsAreNoOps", "RemoveComplete", "RenameKeepsData", "AddKeeps"]


def write_disk(folder):
    for p, d in DISK.items():
        f = os.path.join(folder, *p.split("/"))
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fh:
            fh.write(M.content(d))


def data_of(d, name=""):
    return M.content(d)


def do_op(rm, srr, op, folder, variant=0):
    """-> result name"""
    try:
        if op["o"] == "add":
            req = list(op["req"])
            if variant % 2 and len(req) == 1:
                req = req[0]
            rm.add_stored_files(srr, req, folder, op["paths"])
        elif op["o"] == "remove":
            rm.remove_stored_files(srr, list(op["names"]))
        elif op["o"] == "rename":
            rm.rename_stored_file(srr, op["a"], op["b"])
        return "ok"
    except rm.DupeFileName:
        return "dupe"
    except rm.FileNotFound:
        return "missing"
    except AttributeError:
        return "badname"


def case_history(case, d):
    import rescene.main as rm
    h = case["h"]
    folder = os.path.join(d, "src")
    os.mkdir(folder)
    write_disk(folder)
    work = os.path.join(d, "w")
    os.mkdir(work)
    srr = os.path.join(work, "x.srr")
    with open(srr, "wb") as f:
        f.write(M.srr_bytes(h[0]["srr"], data_of))
    before = rarset.read_tree(folder)
    for i, st in enumerate(h[1:], 1):
        res = do_op(rm, srr, st["op"], folder, case.get("variant", 0) + i)
        same(res, st["res"], "step %d %s: result" % (i, json.dumps(st["op"])))
        with open(srr, "rb") as f:
            got = f.read()
        want = M.srr_bytes(st["srr"], data_of)
        if got != want:
            try:
                g = [(k, n, len(b)) for k, n, b, _ in M.split(got)]
            except M.ParseError as e:
                g = str(e)
            raise Failure("step %d %s: SRR contents %s, specification %s" % (
                i, json.dumps(st["op"]), g, [(p["k"], p["n"]) for p in st["srr"]]))
        same(sorted(os.listdir(work)), ["x.srr"], "step %d: files next to the SRR" % i)
    check(rarset.read_tree(folder) == before, "an edit changed the files being stored")
    # the listing and the extracted bytes agree with the specification's final state
    last = h[-1]["srr"]
    inf = rm.info(srr)
    names = []
    for p in last:
        if p["k"] == "st" and p["n"] not in names:
            names.append(p["n"])
    same(list(inf["stored_files"]), names, "listing of stored files")
    return {"steps": len(h) - 1}


def project(data, table):
    out = []
    for k, n, b, st in M.split(data):
        if k == "st":
            out.append({"k": "st", "n": n, "d": table.get(("st", st), -2)})
        elif k == "app":
            out.append({"k": "app", "n": n, "d": 0})
        else:
            out.append({"k": k, "n": n, "d": table.get((k, n, b), -3)})
    return out


def case_record(case, d):
    """Random long history on the real code; the recorded trace is written for TLC."""
    import rescene.main as rm
    rng = random.Random("%s|%s" % (case["seed"], case["i"]))
    folder = os.path.join(d, "src")
    os.mkdir(folder)
    pool = ["f%d.nfo" % i for i in range(5)] + ["Sample/s%d.srs" % i for i in range(3)] + ["F1.nfo", "Proof/p.jpg", "x y/z.txt",
            "b\u00e9.txt", "bad?.txt", "q\"uote.txt"]
    bad = [p for p in pool if any(c in p for c in '\\:*?"<>|')]
    disk = {}
    table = {}
    for p in pool:
        if rng.random() < .85:
            disk[p] = rng.randrange(0, 30)
            f = os.path.join(folder, *p.split("/"))
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "wb").write(M.content(disk[p]))
    for i in range(30):
        table[("st", M.content(i))] = i
    parts = [A(rng.choice(["ReScene .NET 1.2 beta", "pyReScene 0.7 application", "pyReScene app \u20ac"]))]
    nv = rng.randrange(0, 4)
    st = [S(rng.choice(pool + ["old.nfo"]), rng.randrange(30)) for _ in range(rng.randrange(0, 3))]
    st = [s for s in st if s["n"] not in bad]
    vols = [V("v%d.rar" % i, rng.randrange(9)) for i in range(nv)]
    parts += st + vols + ([O("m.mkv", rng.randrange(5))] if rng.random() < .5 else [])
    for p in parts:
        if p["k"] in ("vol", "oso"):
            table[(p["k"], p["n"], M.part_bytes(p))] = p["d"]
    # content ids with equal bytes must be the same id
    canon = {}
    for i in range(30):
        canon[i] = table[("st", M.content(i))]
    for p in parts:
        if p["k"] == "st":
            p["d"] = canon[p["d"]]
    disk = {p: canon[i] for p, i in disk.items()}
    work = os.path.join(d, "w")
    os.mkdir(work)
    srr = os.path.join(work, "x.srr")
    open(srr, "wb").write(M.srr_bytes(parts, data_of))
    ops = []
    names = set(pool) | {"old.nfo", "n1", "dir/n2"}
    for _ in range(case["len"]):
        o = rng.choice(["add", "add", "remove", "rename"])
        if o == "add":
            op = {"o": "add", "req": rng.sample(pool, rng.randrange(1, 4)), "paths": rng.random() < .6}
        elif o == "remove":
            op = {"o": "remove", "names": rng.sample(sorted(names), rng.randrange(1, 3))}
        else:
            op = {"o": "rename", "a": rng.choice(sorted(names)), "b": rng.choice(sorted(names))}
        res = do_op(rm, srr, op, folder)
        data = open(srr, "rb").read()
        try:
            op["srr"] = project(data, table)
        except (M.ParseError, UnicodeDecodeError, IndexError, ValueError) as e:
            raise Failure("after %s the SRR cannot be parsed: %s" % (op, e))
        op["res"] = res
        ops.append(op)
        same(sorted(os.listdir(work)), ["x.srr"], "files next to the SRR after %s" % op)
    tr = {"init": parts, "disk": [{"n": k, "d": v} for k, v in disk.items()],
          "base": [{"p": p, "b": p.split("/")[-1]} for p in pool], "bad": bad, "ops": ops}
    with open(os.path.join(case["out"], "%d.json" % case["i"]), "w") as f:
        f.write(json.dumps(tr))
    return {"steps": len(ops)}


def validate_recorded(ctx, n, length):
    out = os.path.join(ctx.scratch, "rec")
    os.makedirs(out, exist_ok=True)
    ctx.replay(case_record, [{"seed": ctx.seed, "i": i, "len": length, "out": out} for i in range(n)], "record",
               count_traces=False)
    lines = []
    idx = []
    for i in range(n):
        p = os.path.join(out, "%d.json" % i)
        if os.path.exists(p):
            lines.append(open(p).read())
            idx.append(i)
    r = ctx.tlc("SrrStoreTrace", constants=dict(TraceFile="trace.ndjson"), extra_files={"trace.ndjson": "\n".join(lines) + "\n"})
    ctx.traces += len(lines)
    for b in r.behaviours:
        tr = json.loads(lines[b["trace"] - 1])
        ctx.fail("recorded history rejected by the specification at step %d (%s): %s, code gave %s, specification %s" % (
            b["step"], b["op"], b["clause"], b["got"], b["want"]), {"seed": ctx.seed, "i": idx[b["trace"] - 1], "len": length, "out": "/tmp"},
            part="record")
    want = sum(len(json.loads(x)["ops"]) + 1 for x in lines)
    if r.states != want and not r.behaviours:
        raise RuntimeError("trace validation visited %d states, expected %d" % (r.states, want))


PARTS = {"history": case_history, "record": case_record}


def run(ctx):
    a = ctx.tlc("SrrStore", constants=consts(2), constraint="Emit", invariants=INVS)
    n = 3000 if ctx.quick else 20000
    hs = ctx.sample(a.behaviours, n // 2)
    if ctx.quick:
        b = ctx.tlc("SrrStore", constants=consts(6), constraint="Emit", invariants=INVS, simulate=40, depth=8)
    else:
        b = ctx.tlc("SrrStore", constants=consts(3, inits=INITS[:2]), constraint="Emit", invariants=INVS)
        b2 = ctx.tlc("SrrStore", constants=consts(8), constraint="Emit", invariants=INVS, simulate=200, depth=10)
        hs += ctx.sample(b2.behaviours, n // 2)
    hs += ctx.sample(b.behaviours, n // 2)
    ctx.replay(case_history, [{"h": h, "variant": i % 2} for i, h in enumerate(hs)], "history")
    validate_recorded(ctx, 150 if ctx.quick else 1500, 12 if ctx.quick else 25)
