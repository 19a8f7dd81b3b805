"""P13: SRR/SRS creation completes atomically or changes nothing.  Create.tla gives the outcome of every
input problem, answer and destination; the real tools are run through their command line and compared.
Then every file operation and a set of write positions is failed or killed, and the recorded directory
snapshots are checked by CreateTrace.tla."""
import json
import os
import random
import stat
import zlib
from . import cli, faults, media, rarset
from . import rarfmt as R
from .core import Failure, answer, check, same, stable_hash
from .tlc import Fn, Set, TLCError

SRR_FAULTS = ["ok", "okrar", "storedmissing", "nofile", "badtype", "missing", "compressed", "corrupt", "corrupt2", "emptysfv"]
VIDEO_FAULTS = ["ok", "info", "nofile", "toobig", "badtype", "incomplete", "nodata", "notfound", "nocheck", "badcheck"]
MUSIC_FAULTS = ["ok", "info", "nofile", "toobig", "badtype"]
STREAM_FAULTS = ["ok", "info", "nofile", "toobig", "notfound"]
TOOLS = {"srr": SRR_FAULTS, "avi": VIDEO_FAULTS, "mkv": VIDEO_FAULTS, "mp4": VIDEO_FAULTS, "wmv": VIDEO_FAULTS,
         "flac": MUSIC_FAULTS, "mp3": MUSIC_FAULTS, "vob": STREAM_FAULTS}
SRS = [t for t in TOOLS if t != "srr"]
FPCALC = "#!/bin/sh\necho DURATION=12\necho FINGERPRINT=AQAAx\n"


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def fpcalc_dir(d):
    p = os.path.join(d, "bin")
    put(os.path.join(p, "fpcalc"), FPCALC.encode())
    os.chmod(os.path.join(p, "fpcalc"), 0o755)
    return p


def mp3_audio(rng, n=3000):
    out = bytearray()
    while len(out) < n:
        out += b"\xff\xfb\x90\x00" + bytes(rng.randrange(1, 120) for _ in range(413))
    return bytes(out)


def flac_audio(rng, n=3000):
    return b"\xff\xf8" + bytes(rng.randrange(1, 250) for _ in range(n))


def video(kind, rng, nmain=14, lo=3, hi=9):
    frames = {t: [media.rb(rng, rng.choice([300, 257, 301, 420])) for _ in range(nmain)] for t in (1, 2)}
    main = [(t, frames[t][i]) for i in range(nmain) for t in (1, 2)]
    samp = [(t, frames[t][i]) for i in range(lo, hi) for t in (1, 2)]
    return media.VIDEO[kind](samp, rng, {}), media.VIDEO[kind](main, rng, {})


def scenario(tool, fault, d, rng):
    """Writes the input files into d/in; -> (argv, exit 0 without output: e.g. -i)"""
    i = os.path.join(d, "in")
    os.makedirs(i)
    if tool == "srr":
        data = R.pattern("p13%r" % rng.random(), rng.choice([500, 3000, 70000]))
        nvol = 3
        step = len(data) // nvol + 1
        method = 0x33 if fault == "compressed" else 0x30
        new = rng.random() < .5
        names = [rarset.volume_name("new" if new else "old", "rel", k + 1, nvol, 2) for k in range(nvol)]
        for k in range(nvol):
            part = data[k * step:(k + 1) * step]
            out = R.MARKER + R.main_header(True, new, k == 0, False)
            out += R.file_header("m.mkv", len(part), len(data), zlib.crc32(part if k < nvol - 1 else data), k > 0, k < nvol - 1,
                                 method=method) + part
            out += R.end_block("crc", k < nvol - 1, k, out)
            if (fault, k) in (("corrupt", 0), ("corrupt2", 1)):
                out = b"PAR!" + out[4:] if rng.random() < .5 else b"Rar"
            if not (fault == "missing" and k == rng.choice([1, 2])):
                put(os.path.join(i, names[k]), out)
        if fault == "missing" and all(os.path.exists(os.path.join(i, n)) for n in names):
            os.unlink(os.path.join(i, names[1]))
        sfv = "".join("%s %08x\r\n" % (n, 0x1234) for n in names)
        put(os.path.join(i, "rel.sfv"), ("; nothing\r\n" if fault == "emptysfv" else sfv).encode())
        put(os.path.join(i, "rel.nfo"), b"nfo " * 50)
        put(os.path.join(i, "rel.txt"), b"text")
        src = "rel.sfv"
        if fault == "okrar" or (fault in ("compressed", "corrupt") and rng.random() < .4):
            src = names[0]
        elif fault == "nofile":
            src = "other.sfv"
        elif fault == "badtype":
            src = "rel.txt"
        argv = [os.path.join(i, src), "-i", i]
        if rng.random() < .5:
            argv.append("-p")
        argv += ["-s", os.path.join(i, "nope.nfo")] if fault == "storedmissing" else ["-s", os.path.join(i, "rel.nfo")] if rng.random() < .7 else []
        if rng.random() < .3:
            argv.append("--no-isdb")
        return argv
    argv = []
    name = os.path.join(i, "smp." + tool)
    if tool in media.VIDEO:
        s, m = video(tool, rng)
        if fault == "incomplete":
            s = s[:len(s) - rng.choice([1, 40, 300, len(s) // 3])]
        elif fault == "nodata":
            s = media.VIDEO[tool]([], rng, {"tracks": ()})
        elif fault == "notfound":
            m = video(tool, rng)[1]
        put(name, s)
        main = os.path.join(i, "main." + tool)
        put(main, m)
        if fault == "notfound" or (fault in ("ok", "incomplete") and rng.random() < .4):
            argv += ["-c", main]
        if fault == "badcheck":
            other = "mkv" if tool != "mkv" else "avi"
            main = os.path.join(i, "main." + other)
            put(main, video(other, rng)[1])
            argv += ["-c", main]
        if fault == "nocheck":
            argv += ["-c", os.path.join(i, "gone.avi")]
    elif tool == "mp3":
        put(name, media.id3v2(b"x" * 30) + mp3_audio(rng) + media.id3v1(b"t"))
    elif tool == "flac":
        put(name, b"fLaC" + media.flac_block(0, b"\x10\0\x10\0" + bytes(30), False) + media.flac_block(4, b"vc" * 20, True) + flac_audio(rng))
    else:
        data = media.rb(rng, 9000)
        main = data if fault != "notfound" else media.rb(rng, 9000)
        put(name, data[1000:4000])
        put(os.path.join(i, "main.vob"), main)
        if fault == "notfound" or (fault == "ok" and rng.random() < .5):
            argv += ["-c", os.path.join(i, "main.vob")]
    if fault == "badtype":
        put(name, b"this is no media file " * 40)
    if fault == "toobig":                            # only with -b
        with open(name, "r+b") as f:
            f.truncate((1 << 31) + rng.choice([0, 0, 1, 1 << 31]))
    if fault == "nofile":
        name = os.path.join(i, "gone." + tool)
    if fault == "info":
        argv.append("-i")
    return [name] + argv


def tree_state(root):
    out = {}
    for base, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(base, f)
            if os.path.getsize(p) >= 1 << 28:
                out[os.path.relpath(p, root)] = os.path.getsize(p)
                continue
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
        for x in ds:
            out[os.path.relpath(os.path.join(base, x), root) + "/"] = None
    return out


def target(tool, rng, d, argv):
    """Where the result goes: the options naming it and the resulting path."""
    out = os.path.join(d, "out")
    os.makedirs(out)
    base = os.path.basename(argv[0])[:-4] if tool == "srr" else os.path.basename(argv[0]).rsplit(".", 1)[0]
    ext = ".srr" if tool == "srr" else ".srs"
    c = rng.randrange(5)
    if c == 3:
        return (["-d"] if tool == "srr" else ["--d"]) + ["-o", out], os.path.join(out, "in" + ext), None
    if c == 4 and tool != "srr":
        return ["--dd", "-o", out], os.path.join(out, os.path.basename(d) + ext), None
    if c in (0, 4):
        return ["-o", out], os.path.join(out, base + ext), None
    if c == 1:
        return ["-o", os.path.join(out, "res" + ext)], os.path.join(out, "res" + ext), None
    return [], os.path.join(out, base + ext), out


def invoke(tool, argv, stdin, cwd, env):
    fn = cli.srr if tool == "srr" else cli.srs
    return fn(argv, stdin, cwd=cwd, timeout=40, env=env)


def case_create(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    tool = b["tool"]
    argv = scenario(tool, b["input"], d, rng)
    env = {"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}
    opts, dest, cwd = target(tool, rng, d, argv)
    old = b"an older file" * rng.choice([0, 1, 900])
    if b["dest0"] == "old":
        put(dest, old)
    before = tree_state(os.path.join(d, "in"))
    flags = {"always": ["-y"], "never": ["-n"]}.get(b["answer"], [])
    stdin = answer(rng, b["answer"]) if b["answer"] in ("y", "n") else ""
    r = invoke(tool, argv + opts + flags, stdin, cwd or d, env)
    what = "%s creation from %s input, destination %s, answer %s" % (tool, b["input"], b["dest0"], b["answer"])
    check(r.code != "hang", "%s does not end", what)
    same(tree_state(os.path.join(d, "in")), before, what + ": the input files")
    now = tree_state(os.path.join(d, "out"))
    key = os.path.relpath(dest, os.path.join(d, "out"))
    if b["outcome"] == "ok":
        check(r.code == 0, "%s: failed: %s", what, r)
        same(sorted(now), [key], what + ": files in the output folder")
        check(now[key] != old, "%s: the old file is still there", what)
        verify_new(tool, dest, argv, d, what)
    else:
        check((r.code != 0) if b["outcome"] == "error" else r.code in (0, 1), "%s: exit status %s for an operation that did not succeed (%s)", what, r.code, r)
        same(now, {key: old} if b["dest0"] == "old" else {}, what + ": output folder after no success")
    return {b["outcome"]: 1}


def verify_new(tool, dest, argv, d, what):
    """the new file is complete: it lists without error and names its input"""
    r = invoke(tool, [dest, "-l"], "", d, {})
    check(r.code == 0, "%s: the created file cannot be listed: %s", what, r)
    want = "m.mkv" if tool == "srr" else os.path.basename(argv[0])
    check(want in r.out, "%s: the created file does not mention %s: %s", what, want, r.out)
    check(not r.err.strip(), "%s: listing the created file complains: %s", what, r.err)


# -- failing and killed file operations -----------------------------------------------------------
SCENES = [(t, f, dest, seed) for t, f in
          [("srr", "ok"), ("srr", "okrar"), ("srr", "missing"), ("avi", "ok"), ("mkv", "ok"), ("mp4", "ok"), ("wmv", "ok"), ("flac", "ok"),
           ("mp3", "ok"), ("vob", "ok")] for dest in ("old", "none") for seed in (1, 2)]


def case_fault(case, d):
    tool, fault_in, dest0, seed = case["scene"]
    import rescene.srr  # noqa: F401
    import resample.srs  # noqa: F401
    rng = random.Random("p13%r" % (case["scene"],))
    argv = scenario(tool, fault_in, d, rng)
    out = os.path.join(d, "out")
    os.makedirs(out)
    dest = os.path.join(out, "res.srr" if tool == "srr" else "res.srs")
    old = b"an older file" * 400
    if dest0 == "old":
        put(dest, old)
    newp = os.path.join(case["out"], "%s.new" % case["sid"])
    new = open(newp, "rb").read() if os.path.exists(newp) else None
    bindir = fpcalc_dir(d)

    def snapshot():
        s = {"dest": "none", "tmp": "none"}
        for f in sorted(os.listdir(out)):
            with open(os.path.join(out, f), "rb") as fh:
                data = fh.read()
            c = "old" if data == old else "new" if data == new else "part"
            if f == os.path.basename(dest):
                s["dest"] = c
            else:
                s["tmp"] = c
        return s

    def fn():
        os.environ["PATH"] = bindir + ":/usr/bin:/bin"
        if tool == "srr":
            from rescene import srr as m
            if hasattr(m, "MessageThread"):
                m.MessageThread.sleeptime = 0.01
        else:
            from resample import srs as m
        return m.main(argv + ["-o", dest, "-y"])
    fault = tuple(case["fault"]) if case["fault"] else None
    before = tree_state(os.path.join(d, "in"))
    t = faults.run(fn, [os.path.join(d, "in"), out], fault, snapshot=snapshot)
    same(tree_state(os.path.join(d, "in")), before, "the input files")
    ok = fault_in in ("ok", "okrar")
    if fault is None:
        check(t["outcome"] == "exit" and (t["code"] == 0) == ok, "the run without faults: %s", t)
        if ok:
            with open(dest, "rb") as f:
                put(newp, f.read())
            with open(dest, "rb") as f:
                new = f.read()
            t["snaps"] = [dict(s) for s in t["snaps"]]
            for s in t["snaps"]:
                for k in s:
                    if k == "dest" and s[k] == "part":
                        s[k] = "new"
    outcome = "crash" if t["outcome"] == "crash" else "ok" if t["code"] == 0 else "error"
    if outcome == "error" and fault and fault[2] == "interrupt" and t["snaps"][-1]["dest"] == "new":
        outcome = "ok"       # interrupted when everything was in place already
    # a fault in the removal of the temporary file itself leaves that file behind
    mayleave = bool(fault and fault[0] == "event" and len(t["events"]) >= fault[1] and t["events"][fault[1] - 1][0] in ("os.remove", "os.unlink"))
    with open(os.path.join(case["out"], "%d.json" % case["i"]), "w") as f:
        json.dump({"snaps": t["snaps"], "outcome": outcome, "n": t["n"], "mayleave": mayleave, "dest0": dest0,
                   "events": t["events"], "size": len(new or b"")}, f)
    last = t["snaps"][-1]
    what = "%s with fault %s (%s)" % (case["scene"], fault, t["events"][fault[1] - 1] if fault and fault[0] == "event" and len(t["events"]) >= fault[1] else "")
    check(last["dest"] in (dest0, "new"), "%s: NeverTorn: the destination is %s", what, last)
    if outcome == "error":
        check(last["dest"] == dest0, "%s: FailureKeepsOld: error status, but the directory holds %s", what, last)
        check(last["tmp"] == "none" or mayleave, "%s: FailureKeepsOld: error status, temporary file left behind", what)
    elif outcome == "ok":
        check(last == {"dest": "new", "tmp": "none"}, "%s: SuccessIsNew: status 0, but the directory holds %s", what, last)
    return {outcome: 1, "events": t["n"] or 0}


PARTS = {"create": case_create, "fault": case_fault}


def run(ctx):
    consts = dict(Tools=Set(TOOLS), SrsTools=Set(SRS), InputFaults=Fn({t: Set(f) for t, f in TOOLS.items()}),
                  Answers=Fn({t: Set(["y", "n", "always"] + (["never"] if t == "srr" else [])) for t in TOOLS}),
                  Dests=Set(["none", "old"]), Protocol="atomic", OpFaults=Set(["open", "write", "replace"]), Parts=3)
    r = ctx.tlc("Create", constants=consts, invariants=["Safe"], constraint="Emit")
    for proto in ("inplace", "unlink"):
        x = ctx.tlc("Create", constants=dict(consts, Protocol=proto, Tools=Set(["srr", "avi"])), invariants=["Safe"], expect_fail=True)
        if x.accepted:
            raise TLCError("Create no longer distinguishes protocol " + proto)
    behs = [b for b in r.behaviours if b["opfault"] == "none"]
    cases = [{"b": b, "s": k} for b in behs for k in range(1 if ctx.quick else 8)]
    ctx.replay(case_create, cases, "create", timeout=120)
    out = os.path.join(ctx.scratch, "tr")
    os.makedirs(out)
    scenes = SCENES if not ctx.quick else [s for s in SCENES if s[3] == 1 and (s[2] == "old" or s[0] in ("srr", "mkv"))]
    base = [{"scene": list(s), "sid": k, "fault": None, "i": k, "out": out} for k, s in enumerate(scenes)]
    ctx.replay(case_fault, base, "fault", count_traces=False)
    fl = []
    for c in base:
        p = os.path.join(out, "%d.json" % c["i"])
        if not os.path.exists(p):
            continue
        t = json.load(open(p))
        for k in range(1, t["n"] + 1):
            fl += [(c, ("event", k, x)) for x in ("error", "interrupt", "crash")]
        size = t["size"]
        pts = {0, 1, size - 1, size // 2, size // 3, 8192, 8191, 4096, 100, 30} | {ctx.rng.randrange(max(1, size)) for _ in range(0 if ctx.quick else 20)}
        fl += [(c, ("write", p, kind)) for p in sorted(pts) if 0 <= p < size for kind in ("error", "crash")]
    cases = [dict(c, fault=list(f), i=len(base) + j) for j, (c, f) in enumerate(fl)]
    ctx.replay(case_fault, cases, "fault", count_traces=False)
    lines, meta = [], []
    for c in base + cases:
        p = os.path.join(out, "%d.json" % c["i"])
        if os.path.exists(p):
            t = json.load(open(p))
            lines.append(json.dumps({k: t[k] for k in ("snaps", "outcome", "mayleave", "dest0")}))
            meta.append(c)
    if lines:
        r = ctx.tlc("CreateTrace", constants=dict(TraceFile="trace.ndjson"), extra_files={"trace.ndjson": "\n".join(lines) + "\n"})
        ctx.traces += len(lines)
        for b in r.behaviours:
            c = meta[b["trace"] - 1]
            ctx.fail("snapshots of %s with fault %s rejected at step %d: %s %s" % (c["scene"], c["fault"], b["step"], b["clause"], b["snap"]),
                     dict(c, out="/tmp"), part="fault")
    ctx.assumptions += ["file operations are those Python audits plus every write(2) via RLIMIT_FSIZE; a crash is a process kill, not a power failure",
                        "creation is through the command line (which passes a temporary name); fpcalc is a stub printing a fixed fingerprint"]
