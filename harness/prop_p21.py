"""P21: compressed archives are rebuilt with the executable that made them (RarTools.tla)."""
import datetime
import os
import random
import types

from . import cli
from . import rartool as T
from .core import check, stable_hash
from .tlc import Set

JUNK = ["readme.txt", "rarreg.key", "WinRAR.exe", "2008-9-16_rar380", "2008-09-16_winrar380.exe", "2008-09-16_rar38", "rar380_2008-09-16.exe",
        "2008-09-16-rar380", "x2008-09-16_rar380", "2008-09-16_rarb380"]
EPOCH = datetime.date(2002, 3, 30)


def day(d):
    return EPOCH + datetime.timedelta(days=37 * d)


def dos(d, rng):
    x = day(d)
    return (x.year - 1980) << 25 | x.month << 21 | x.day << 16 | rng.randrange(24) << 11 | rng.randrange(60) << 5 | rng.randrange(30)


def names(repo, rng):
    """Executable names: date, version, perhaps a beta or an extension."""
    return ["%s_rar%d%s%s" % (day(t["date"]).isoformat(), t["ver"], rng.choice(["", "", "b1", "b5"]), rng.choice(["", "", ".exe"])) for t in repo]


def build(b, d, rng, sets=1):
    """The world of a behaviour: executables, files and the original volumes -> dict (or None: cannot be made like this)."""
    arch = b["arch"]
    maker = arch["maker"]
    tools = list(b["repo"])
    lost = None
    if arch["lost"]:
        lost = dict(date=arch["mdate"], ver=arch["mver"], fam=arch["fam"], mt=arch["mver"] >= 360, broken=False)
        tools.insert(maker - 1, lost)
    nm = names(tools, rng)
    cfg = {}
    top = tools[-1]["fam"]
    for n, t in zip(nm, tools):
        cfg[n] = dict(ver=t["ver"], mt=t["mt"], fam=t["fam"], ratio=600 - 40 * t["fam"], tail=20 + 101 * (top - t["fam"]),
                      broken=rng.choice([7, 2, 8, 255, 77]) if t["broken"] else 0)
    files = []
    inp = os.path.join(d, "in")
    os.makedirs(inp)
    dates = {}
    newest = rng.randrange(len(arch["files"]))
    huge = arch["many"] and arch["md"] == "C" and not arch["old"] and len(arch["files"]) <= 2 and rng.random() < .25
    for i, f in enumerate(arch["files"]):
        n = rng.choice(["movie", "a", "r2 d2", "x.y"]) + "%d.f%02d" % (i, i)
        if f["k"] == "d":
            n = "folder%d" % i
            os.makedirs(os.path.join(inp, n))
        else:
            size = rng.randrange(5000, 9000) if f["big"] else rng.randrange(2500, 4500)
            if f["k"] == "s":
                n = n[:-4] + "%d.png" % i
                size = rng.choice([0, 1, 100, 4000])
            elif huge and f["big"]:
                size = rng.randrange(150000, 330000)
            with open(os.path.join(inp, n), "wb") as h:
                h.write(bytes(rng.choice(b"abcdef \n") for _ in range(min(size, 4000))) + rng.randbytes(max(0, size - 4000)))
        dates[n] = dos(arch["date"] if i == newest else rng.randint(0, arch["date"]), rng)
        files.append(n)
    repo = os.path.join(d, rng.choice(["repo", "my_rar2_tools", "tools_rar5"]))
    log = os.path.join(d, "log")
    T.write(repo, cfg, arch["quirk"], 5000, log, dates, extra=rng.sample(JUNK, rng.randrange(5)))
    m = tools[maker - 1]
    args = ["a", "-m%d" % rng.randint(1, 5), "-md" + (("A" if huge else rng.choice("ABCDE")) if arch["md"] == "C" else rng.choice("FG")),
            "-s" if arch["solid"] else "-s-", "-ds"]
    if m["mt"]:
        args.append("-mt%d" % arch["t"])
    if m["ver"] >= 300:
        args.append("-vn")
    if m["ver"] >= 500:
        args.append("-ma4")
    orig = os.path.join(d, "orig")
    os.makedirs(orig)
    paths = [os.path.join(inp, n) for n in files]

    def pack(extra):
        for x in os.listdir(orig):
            os.unlink(os.path.join(orig, x))
        T.run(repo, nm[maker - 1], args + extra + ["-ep", "-o+", os.path.join(orig, "x.rar")] + paths, d)
        return sorted(os.listdir(orig))
    pack([])
    if arch["many"]:
        total = os.path.getsize(os.path.join(orig, "x.rar"))
        for _ in range(6):
            v = max(400, int(total / rng.choice([1.3, 1.7, 2.2, 3.1, 4.5])))
            vols = pack(["-v%db" % v])
            if len(vols) > 1 and enough(orig):
                break
        else:
            return None
    if sets == 2:
        # the same files in another archive, perhaps of the same name
        a2 = ["-m%d" % rng.randint(1, 5) if x[:2] == "-m" and x[2].isdigit() else x for x in args]
        second = os.path.join(orig, "y.rar")
        if rng.random() < .5:
            vols = os.listdir(orig)
            for cd in ("CD1", "CD2"):
                os.mkdir(os.path.join(orig, cd))
            for x in vols:
                os.rename(os.path.join(orig, x), os.path.join(orig, "CD1", x))
            second = os.path.join(orig, "CD2", "x.rar")
        T.run(repo, nm[maker - 1], a2 + ["-ep", "-o+", second] + paths, d)
    os.unlink(log)
    if lost:
        os.unlink(os.path.join(repo, nm[maker - 1]))
        del nm[maker - 1]
        tools.remove(lost)
    return dict(repo=repo, names=nm, files=files, inp=inp, orig=orig, log=log, tools=tools)


def enough(orig):
    """The first part of every file has some bytes of data."""
    import rescene.rar as rr
    vols = sorted(os.listdir(orig), key=lambda n: (n[-3:] != "rar", n))
    seen = set()
    for v in vols:
        for b in rr.RarReader(os.path.join(orig, v)).read_all():
            if b.rawtype == 0x74 and b.file_name not in seen:
                seen.add(b.file_name)
                if 0 < b.packed_size < 16:
                    return False
    return True


def tree(folder):
    out = {}
    for root, _, fs in os.walk(folder):
        for n in fs:
            p = os.path.join(root, n)
            with open(p, "rb") as h:
                out[os.path.relpath(p, folder)] = h.read()
    return out


COMMON = [1, 2, 4, 6, 8, 12, 16, 24, 32]


def rebuild(w, b, d, rng, times=1, tool=True):
    """Create the SRR and rebuild with the command line tool."""
    lim = b["limits"]
    mt = []
    if sorted(lim["set"]) == COMMON:
        mt += ["--mt-common"]
    elif lim["set"]:
        s = list(lim["set"])
        rng.shuffle(s)
        mt += ["--mt-set", ",".join(map(str, s + s[:rng.randrange(2)]))]
    if lim["min"]:
        mt += ["--mt-min", str(lim["min"])]
    if lim["max"]:
        mt += ["--mt-max", str(lim["max"])]
    srr = os.path.join(d, "x.srr")
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp)

    def fn():
        import rescene
        import rescene.main as m
        import rescene.srr as s
        import time as t
        m.time = types.SimpleNamespace(sleep=lambda x: None, time=t.time)
        firsts = [os.path.join(w["orig"], v) for v in ("x.rar", "y.rar", "CD1/x.rar", "CD2/x.rar") if os.path.exists(os.path.join(w["orig"], v))]
        rescene.create_srr(srr, firsts, w["orig"], [], True, True)
        if times == 1:
            return s.main([srr, "-i", w["inp"], "-o", os.path.join(d, "out0"), "-t", tmp, "-y", "-p"] + mt + (["-z", w["repo"]] if tool else []))
        o = m.RarMtSettings()
        o.mt_set, o.mt_min, o.mt_max = list(lim["set"]), lim["min"], lim["max"]
        for i in range(times):
            rescene.reconstruct(srr, w["inp"], os.path.join(d, "out%d" % i), rar_executable_dir=w["repo"], tmp_dir=tmp, rar_mt=o)
    return cli.run_child(fn, cwd=d, timeout=150), tmp


def parse(w, calls, old):
    """calls of the log -> tries (file, tool, t, prev, next)"""
    out = []
    index = {n: i + 1 for i, n in enumerate(w["names"])}
    for name, args in calls:
        if not args:
            continue
        at = [i for i, a in enumerate(args) if a.endswith("pyReScene_compressed.rar")]
        if not at:
            continue
        rest = [os.path.basename(x) for x in args[at[0] + 1:]]
        pieces = [i for i, x in enumerate(rest) if x.startswith("pyReScene_data_piece")]
        t = [int(a[3:]) for a in args if a.startswith("-mt")]
        if old:
            out.append(dict(file=1, tool=index[name], t=t[0] if t else -1, prev=False, next=len(rest) == 2))
            continue
        if not pieces:
            continue
        p = pieces[0]
        k = int(rest[p][-2:]) + 1
        out.append(dict(file=k, tool=index[name], t=t[0] if t else -1, prev=p > 0, next=p < len(rest) - 1))
        if p > 1 or len(rest) - 1 - p > 1:
            raise AssertionError("more than one file added: %r" % (rest,))
        if p == 1 and rest[0] != w["files"][k - 2]:
            raise AssertionError("%r is not the file before %r" % (rest[0], w["files"][k - 1]))
        if p + 1 < len(rest) and rest[p + 1] not in ("", w["files"][k - 1]) + tuple(w["files"][k:k + 1]):
            raise AssertionError("%r is not the file after %r" % (rest[p + 1], w["files"][k - 1]))
    return out


def case_search(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    times = 2 if case.get("times") else 1
    w = build(b, d, rng, sets=2 if case.get("sets") else 1)
    if w is None:
        return {"skipped": 1}
    arch = b["arch"]
    want = tree(w["orig"])
    r, tmp = rebuild(w, b, d, rng, times)
    got = tree(os.path.join(d, "out0"))
    what = "arch %r repo %r limits %r" % (arch, b["repo"], b["limits"])
    if b["outcome"] == "exact":
        check(r.code == 0, "not rebuilt: %s: %r", what, r)
        for n in want:
            check(got.get(n) == want[n], "volume %s differs (%s bytes, want %d): %s", n, len(got[n]) if n in got else None, len(want[n]), what)
        check(set(got) == set(want), "volumes %r, not %r: %s", sorted(got), sorted(want), what)
        for i in range(1, times):
            check(tree(os.path.join(d, "out%d" % i)) == want, "the second time the volumes differ: %s", what)
    else:
        check(r.code != 0 or got == want, "wrong volumes reported as good: %s: %r", what, r)
        check(r.code != "hang", "hangs: %s", what)
    check(os.listdir(tmp) == [], "temporary files left behind: %r: %s", os.listdir(tmp), what)
    if case.get("sets"):
        return {"sets": 1}
    # the sequence of tries
    n = len(arch["files"])
    if arch["many"] and n > 1 and b["outcome"] != "exact":
        return {"rebuilt": 0, "refused": 1}
    if arch["quirk"] == "deep" and arch["many"]:
        return {"rebuilt": 1}
    calls = T.calls(w["log"])
    if times == 2 and b["outcome"] == "exact":
        calls = [c for c in calls if c[1]]
        half = len(calls) // 2

        def shape(cs):
            return [(c[0], [a for a in c[1] if not a.startswith("/")]) for c in cs]
        check(shape(calls[:half]) == shape(calls[half:]), "the second time the calls differ: %s", what)
        calls = calls[:half]
    old = arch["old"] and arch["many"]
    acts = parse(w, calls, old)
    if old and b["outcome"] == "exact":
        acts = acts[:-1]        # the one that is used
    newest = len(w["names"])
    for k in range(1, n + 1):
        a = [x for x in acts if x["file"] == k]
        e = [x for x in b["tries"] if x["file"] == k]
        # each search starts with a look at how much data is needed
        left = []
        for x in a:
            at = len(left)
            if (x["tool"], x["t"], x["prev"], x["next"]) == (newest, -1, False, False) and not (at < len(e) and x == e[at]) and (
                    at == 0 or at < len(e) and e[at]["next"] and not e[at - 1]["next"]):
                continue
            left.append(x)
        # with an executable that cannot set the threads these look the same
        while len(left) > len(e) and len(left) > 1 and left[0] == left[1] == dict(file=k, tool=newest, t=-1, prev=False, next=False):
            left.pop(0)
        check(left == e, "file %d: calls\n%s\ninstead of\n%s\n%s", k, show(a), show(e), what)
    check([x["file"] for x in acts] == sorted(x["file"] for x in acts), "files are not handled in order")
    return {"rebuilt": b["outcome"] == "exact", "refused": b["outcome"] != "exact", "tries": len(acts)}


def show(tries):
    return " ".join("%d%s%s%s" % (x["tool"], ":%d" % x["t"] if x["t"] >= 0 else "", "p" if x["prev"] else "", "n" if x["next"] else "") for x in tries[:120])


def case_none(case, d):
    """No executables: refused, nothing is made."""
    rng = random.Random(stable_hash(case))
    w = build(case["b"], d, rng)
    if w is None:
        return {"skipped": 1}
    for n in w["names"]:
        os.unlink(os.path.join(w["repo"], n))
    if case["how"] == "missing":
        w["repo"] = os.path.join(d, "nowhere")
        os.makedirs(w["repo"])
    r, tmp = rebuild(w, case["b"], d, rng, tool=case["how"] != "no -z")
    check(r.code != 0, "reported as good without executables: %r", r)
    check(r.code != "hang", "hangs")
    check(tree(os.path.join(d, "out0")) != tree(w["orig"]), "made from nothing")
    check(os.listdir(tmp) == [], "temporary files left behind: %r", os.listdir(tmp))
    return {"refused": 1}


PARTS = {"search": case_search, "none": case_none}
INVS = ["OnceEach", "Allowed", "AllTried", "Rebuilt", "FirstHit"]


def limits(rng, n):
    out = [dict(set=Set([1, 2, 4]), min=0, max=0), dict(set=Set([]), min=0, max=4), dict(set=Set([]), min=1, max=3), dict(set=Set([0, 1, 2, 17]), min=0, max=0),
           dict(set=Set([1, 2, 3, 4]), min=2, max=3), dict(set=Set([]), min=0, max=0), dict(set=Set([]), min=14, max=0), dict(set=Set([40, 4]), min=0, max=0),
           dict(set=Set([]), min=4, max=2), dict(set=Set([]), min=30, max=0),
           dict(set=Set(COMMON), min=0, max=0)]
    return Set(rng.sample(out, min(n, len(out))))


def run(ctx):
    q = ctx.quick
    rng = ctx.rng
    ctx.assumptions = ["the newest executable works and compresses best", "a different executable or number of threads gives data of another size "
                       "(single volumes) or another begin of the data (more volumes)", "the first part of a file in a volume is not tiny"]
    small = dict(Threads={0, 2}, Limits=Set([dict(set=Set([1, 2, 4]), min=0, max=0), dict(set=Set([]), min=1, max=3)]), Faulty="none")
    bad = ctx.tlc("RarTools", constants=dict(small, Versions={330, 360}, MaxTools=2, MaxFiles=2, Quirks={"none", "prev"}, Solids={False}, Manys={False}, Kinds={"c"},
                  Brokens={False}, Faulty="noprev"), invariants=["Rebuilt"], expect_fail=True)
    if bad.accepted:
        raise RuntimeError("RarTools.tla does not see the fault it was made for")
    bs = []
    a = ctx.tlc("RarTools", constants=dict(small, Versions={250, 330, 360} if not q else {250, 360}, MaxTools=2, MaxFiles=2, Quirks={"none", "prev", "next", "both"},
                Solids={True, False}, Manys={True, False}, Kinds={"c"}, Brokens={False}),
                constraint="Emit", invariants=INVS, properties=[] if q else ["Termination"])
    bs += ctx.sample(a.behaviours, 150 if q else 2500)
    for i in range(1 if q else 4):
        a = ctx.tlc("RarTools", constants=dict(Versions={250, 300, 330, 360, 410, 420, 501}, MaxTools=5, MaxFiles=4, Threads={0, 1, 2, 3, 4, 16, 17, 31},
                    Limits=limits(rng, 8), Quirks={"none", "prev", "next", "both", "deep"}, Solids={True, False}, Manys={True, False}, Kinds={"c", "s", "d"},
                    Brokens={False, True}, Faulty="none"), constraint="Emit", invariants=INVS, simulate=250 if q else 1500, depth=600)
        bs += ctx.sample(a.behaviours, 350 if q else 1600)
    plain = [b for b in bs if b["outcome"] == "exact" and not b["arch"]["solid"] and b["arch"]["quirk"] == "none" and
             not b["arch"]["old"] and all(f["k"] == "c" for f in b["arch"]["files"])]
    cases = [{"b": b, "seed": "%s|s%d" % (ctx.seed, i), "sets": 2} for i, b in enumerate(ctx.sample(plain, 24 if q else 200))]
    for i, b in enumerate(bs):
        c = {"b": b, "seed": "%s|%d" % (ctx.seed, i)}
        exact = b["outcome"] == "exact" and not b["arch"]["solid"]
        if exact and i % 9 == 0:
            c["times"] = 2
        cases.append(c)
    ctx.replay(case_search, cases, "search", timeout=200)
    ctx.replay(case_none, [{"b": b, "how": h, "seed": "%s|%d" % (ctx.seed, i)} for i, (b, h) in enumerate(
        (b, h) for b in ctx.sample(bs, 4 if q else 12) for h in ("junk", "missing", "no -z"))], "none", timeout=100)
