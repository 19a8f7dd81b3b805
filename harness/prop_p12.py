"""P12: a sample rebuild never claims success for wrong data and harms nothing.  Sample.tla gives mains that do
not (or not quite) contain the sample, SampleResult.tla what may be on disk afterwards for every destination,
answer and option; file operations are failed and killed, and names in the SRS are hostile."""
import json
import os
import random
import struct
from . import cli, faults, media, prop_p10
from .core import Failure, answer, check, same, stable_hash
from .prop_p10 import INVS, KINDS, TWO, make_srs, patterns, place_main, scene
from .prop_p13 import flac_audio, fpcalc_dir, mp3_audio, put, tree_state
from .tlc import Set, TLCError

NOBODY = 65534
OLD = b"an older file " * 50


def judge(r, cfg, name, res, sample, before, what, main=None, strict=None):
    """The state of the output folder after a rebuild.  strict: True = has to succeed."""
    got = tree_state(res) if os.path.isdir(res) else {}
    check(r.code != "hang", "%s does not end", what)
    refused = cfg["dest0"] != "none" and cfg["answer"] == "n"
    src = dict(before)
    if r.code == 0:
        check(not refused, "%s: ConsentNeeded: status 0 although the user refused", what)
        check(name in got, "%s: SuccessMeansRight: status 0, but there is no %s: %s", what, name, sorted(got))
        check(got[name] == sample, "%s: SuccessMeansRight: status 0, but the written file is not the sample", what)
        same(sorted(got), sorted(set(src) | {name}), what + ": files in the output folder")
    else:
        check(not strict or refused, "%s: has to succeed: %s", what, r)
        keep = cfg["keep"] and not refused
        if name in src and not keep:
            check(got.get(name) == src[name], "%s: FailureHarmless: failed, and the file that was there is %s", what,
                  "changed" if name in got else "gone")
        if name not in src and not keep:
            check(name not in got, "%s: FailureHarmless: failed, but left a file under the final name", what)
        if main is not None and cfg["kind"] == "music":
            check(got.get(name) == src.get(name), "%s: SourceSafe: the source is %s", what, "changed" if name in got else "gone")
        extra = set(got) - set(src) - {name}
        if not (keep and cfg["kind"] == "music" and cfg["dest0"] == "source"):
            check(not extra, "%s: FailureHarmless: temporary files left behind: %s", what, sorted(extra))
    for f in src:
        if f != name:
            check(got.get(f) == src[f], "%s: another file in the output folder changed: %s", what, f)


def prepare_dest(cfg, res, name, main, rng):
    if cfg["dest0"] == "old":
        put(os.path.join(res, name), OLD)
    if rng.random() < .5:
        put(os.path.join(res, "other.txt"), b"other")
    flags = ["-y"] if cfg["answer"] == "always" else []
    if cfg["keep"]:
        flags.append("-k")
    return flags, answer(rng, cfg["answer"]) if cfg["answer"] in ("y", "n") else ""


def case_main(case, d):
    b, kind, cfg = case["b"], case["kind"], case["cfg"]
    rng = random.Random(stable_hash(case))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    os.makedirs(o)
    os.makedirs(res)
    sb, ob, mb, facts = scene(b, kind, rng)
    srs, name, offsets = make_srs(sb, ob, kind, b["mode"], i, o, rng, d, b["findorig"])
    damage = case.get("damage")
    if damage:
        mb = hurt(mb, damage, rng)
    if cfg["dest0"] == "source":
        main = os.path.join(res, name)
        put(main, mb)
    else:
        main = place_main(i, "main", kind, mb, rng)
    flags, stdin = prepare_dest(cfg, res, name, main, rng)
    if b["mode"] == "search":
        flags.append("-m")
    before, outb, srsb = tree_state(i), tree_state(res), tree_state(o)
    r = cli.srs([srs, main, "-o", res] + flags, stdin, cwd=d)
    what = "%s, main %s %s, spec %s, dest %s, answer %s%s" % (kind, b["mut"], damage or "", b["verdict"], cfg["dest0"], cfg["answer"],
                                                             ", -k" if cfg["keep"] else "")
    judge(r, dict(cfg, kind="video"), name, res, sb, outb, what, strict=b["promised"] and not damage)
    same(tree_state(i), before, what + ": input files")
    same(tree_state(o), srsb, what + ": the SRS")
    return {"ok" if r.code == 0 else "error": 1, "spec_" + b["verdict"]: 1}


def hurt(data, how, rng):
    b = bytearray(data)
    if how == "cut":
        return bytes(b[:rng.choice([0, 1, 8, 12, 30, rng.randrange(len(b)), rng.randrange(len(b)), len(b) - 1])])
    if how == "flip":
        for _ in range(rng.choice([1, 1, 3, 30])):
            b[rng.choice([rng.randrange(len(b)), rng.randrange(min(len(b), 300))])] ^= 1 << rng.randrange(8)
        return bytes(b)
    if how == "shift":
        p = rng.randrange(len(b))
        return bytes(b[:p]) + media.rb(rng, rng.choice([1, 2, 100])) + bytes(b[p:])
    if how == "zero":
        p = rng.randrange(len(b))
        n = rng.choice([4, 100, 2000])
        return bytes(b[:p]) + bytes(len(b[p:p + n])) + bytes(b[p + n:])
    return media.rb(rng, len(b))


# -- damaged SRS files ----------------------------------------------------------------------------
def case_srs(case, d):
    kind = case["kind"]
    rng = random.Random(stable_hash(case))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    os.makedirs(o)
    os.makedirs(res)
    srs, name, main, sample = any_srs(kind, i, o, rng, d)
    with open(srs, "rb") as f:
        data = f.read()
    put(srs, hurt(data, case["damage"], rng))
    put(os.path.join(res, "other.txt"), b"other")
    for x in (d, i, o, res):
        os.chmod(x, 0o777)
    before = {x: tree_state(os.path.join(d, x)) for x in ("in", "srs")}
    r = cli.srs([srs, main, "-o", res, "-y"], cwd=o, env={"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}, uid=NOBODY)
    what = "%s, SRS damaged by %s" % (kind, case["damage"])
    check(r.code != "hang", "%s: does not end", what)
    got = tree_state(res)
    check(got.pop("other.txt", None) == b"other", "%s: another file changed", what)
    check(len(got) <= (1 if r.code == 0 else 0), "%s: exit %s with files %s", what, r.code, sorted(got))
    for x in before:
        same(tree_state(os.path.join(d, x)), before[x], what + ": files in " + x)
    return {"ok" if r.code == 0 else "error": 1}


def music(kind, rng):
    audio = mp3_audio(rng) if kind == "mp3" else flac_audio(rng)
    if kind == "mp3":
        return audio, media.id3v2(media.rb(rng, 40)) + audio + media.id3v1(b"title"), media.id3v2(b"other" * 9) + audio
    si = media.flac_block(0, b"\x10\0\x10\0" + media.rb(rng, 30), False)
    return audio, b"fLaC" + si + media.flac_block(4, media.rb(rng, 60), True) + audio, b"fLaC" + si + media.flac_block(4, b"v" * 20, True) + audio


def any_srs(kind, i, o, rng, d):
    ext = media.EXT[kind]
    if kind in KINDS:
        b = {"pat": [[1, 2, 3, 4], [5, 6, 7, 8]], "cut": [[2, 4], [1, 4]], "sigf": rng.choice([1, 2]), "mut": {"k": "none", "t": 0, "i": 0},
             "inter": "alt", "mode": "search"}
        sample, _, main, _ = scene(b, kind, rng)
    elif kind == "stream":
        pack = b"\x00\x00\x01\xba"                    # else it can look like an MP3
        main = pack + media.rb(rng, 496) + pack + media.rb(rng, 6496)
        sample = main[500:3000]
    else:
        _, sample, main = music(kind, rng)
    name = "smp" + ext
    put(os.path.join(i, "s", name), sample)
    put(os.path.join(i, "main" + ext), main)
    argv = [os.path.join(i, "s", name), "-o", os.path.join(o, "x.srs")]
    if kind in KINDS + ["stream"] and rng.random() < .4:
        argv += ["-c", os.path.join(i, "main" + ext)]
    r = cli.srs(argv, cwd=d, env={"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"})
    check(r.code == 0, "creating an SRS of %s failed: %s", kind, r)
    return os.path.join(o, "x.srs"), name, os.path.join(i, "main" + ext), sample


# -- names in the SRS ---------------------------------------------------------------------------------
def hostile(d):
    return ["../x.avi", "../../up/x.avi", "..", ".", "sub/x.avi", "no/such/dir/x.avi", d + "/abs/x.avi", "../out2/y.avi", "a/../../x.avi", "./x.avi",
            "..\\..\\x.avi", "C:\\x.avi", "x.avi/", "out/../../x.avi", "//x.avi", "\u00e9/../x.avi", "aux", "x\ny.avi", " ", "a" * 250]


def case_names(case, d):
    kind = case["kind"]
    rng = random.Random(stable_hash(case))
    base = os.path.join(d, "area", "deep")
    i, o, res = (os.path.join(base, x) for x in ("in", "srs", "out"))
    for x in (o, res, os.path.join(base, "out2"), os.path.join(d, "abs"), os.path.join(base, "up"), os.path.join(d, "area", "up")):
        os.makedirs(x)
        put(os.path.join(x, "x.avi"), b"do not touch")
    os.unlink(os.path.join(res, "x.avi"))
    put(os.path.join(d, "area", "x.avi"), b"do not touch")
    put(os.path.join(base, "x.avi"), b"do not touch")
    bad = hostile(d)[case["n"]]
    raw = bad.encode()
    srs, name, main, sample = any_srs(kind, i, o, rng, d)
    # a sample with a name of the same length, replaced in the SRS
    ext = media.EXT[kind]
    stand = "q" * len(raw) if len(raw) <= len(ext) else "q" * (len(raw) - len(ext)) + ext
    if kind in ("mp3", "flac", "stream") and not stand.endswith(ext):
        return {"skipped": 1}
    if len(stand) > 250:
        return {"skipped": 1}
    put(os.path.join(i, "s", stand), sample)
    os.unlink(srs)
    r = cli.srs([os.path.join(i, "s", stand), "-o", srs], cwd=d, env={"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"})
    check(r.code == 0, "creating an SRS of %s %r failed: %s", kind, stand, r)
    with open(srs, "rb") as f:
        data = f.read()
    field = struct.pack("<H", len(raw))         # the length of the name comes before it
    if data.count(field + stand.encode()) != 1:
        return {"skipped": 1}
    put(srs, data.replace(field + stand.encode(), field + raw))
    for top, ds, fs in os.walk(d):
        for x in ds + fs:
            os.chmod(os.path.join(top, x), 0o777)
    os.chmod(d, 0o777)
    before = tree_state(d)
    r = cli.srs([srs, main, "-o", res, "-y"], cwd=o, env={"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}, uid=NOBODY)
    after = tree_state(d)
    inside = os.path.relpath(res, d) + "/"
    out = {k: v for k, v in after.items() if not k.startswith(inside) and not k.startswith("bin")}
    want = {k: v for k, v in before.items() if not k.startswith(inside) and not k.startswith("bin")}
    check(out == want, "SRS with sample name %r: files outside the output folder changed: %s", bad,
          sorted(k for k in set(out) ^ set(want)) or [k for k in out if out[k] != want[k]])
    got = {k: v for k, v in after.items() if k.startswith(inside) and v is not None}
    if r.code == 0:
        check(len(got) == 1 and list(got.values()) == [sample], "SRS with sample name %r: status 0 with %s", bad, sorted(got))
    else:
        check(not got, "SRS with sample name %r: exit %s, but files left: %s", bad, r.code, sorted(got))
    return {"ok" if r.code == 0 else "error": 1}


# -- music, retagged in place or next to the source ---------------------------------------------------
def case_music(case, d):
    cfg, kind = case["cfg"], case["ext"]
    rng = random.Random(stable_hash(case))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    os.makedirs(o)
    os.makedirs(res)
    audio, sample, main = music(kind, rng)
    name = "01-artist-title." + kind
    put(os.path.join(i, name), sample)
    env = {"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}
    srs = os.path.join(o, "t.srs")
    r = cli.srs([os.path.join(i, name), "-o", srs], cwd=d, env=env)
    check(r.code == 0, "creating an SRS of %s failed: %s", kind, r)
    v = cfg["verdict"]
    at = main.index(audio)
    if v == "mismatch":
        p = at + rng.randrange(1500, len(audio) - 200)
        main = main[:p] + bytes([main[p] ^ 1]) + main[p + 1:]
    elif v == "short":
        main = main[:at + rng.randrange(1400, len(audio) - 10)]
    elif v == "notfound":
        main = music(kind, rng)[2]
    if v == "badsrs":
        with open(srs, "rb") as f:
            data = f.read()
        put(srs, data[:rng.choice([0, 3, 20, len(data) // 2])])
    mp = os.path.join(res, name) if cfg["dest0"] == "source" else os.path.join(i, "main", "x." + kind)
    put(mp, main)
    to = res
    if cfg["way"] in ("link", "outlink"):
        os.makedirs(os.path.join(d, "l"))
        os.symlink(res, os.path.join(d, "l", "out"))
    if cfg["way"] == "link":
        mp = os.path.join(d, "l", "out", name)
    elif cfg["way"] == "outlink":
        to = os.path.join(d, "l", "out")
    elif cfg["way"] == "dots":
        mp = os.path.join(d, "in", "..", os.path.basename(res), ".", name)
    flags, stdin = prepare_dest(cfg, res, name, mp, rng)
    before, outb = tree_state(i), tree_state(res)
    r = cli.srs([srs, mp, "-o", to] + flags, stdin, cwd=d, env=env)
    what = "%s, %s, dest %s (%s), answer %s%s" % (kind, v, cfg["dest0"], cfg["way"], cfg["answer"], ", -k" if cfg["keep"] else "")
    judge(r, cfg, name, res, sample, outb, what, main=mp if cfg["dest0"] == "source" else None, strict=v == "ok")
    same(tree_state(i), before, what + ": input files")
    return {"ok" if r.code == 0 else "error": 1}


# -- failing and killed file operations ----------------------------------------------------------------
def case_fault(case, d):
    kind, dest0, good, seed = case["scene"]
    import resample.srs  # noqa: F401
    rng = random.Random("p12%r" % (case["scene"],))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    os.makedirs(o)
    os.makedirs(res)
    srs, name, main, sample = any_srs(kind, i, o, rng, d)
    if not good:
        with open(main, "rb") as f:
            m = f.read()
        pos = m.rindex(sample[-60:-20]) if m.count(sample[-60:-20]) == 1 else len(m) // 2
        put(main, m[:pos + 5] + bytes([m[pos + 5] ^ 255]) + m[pos + 6:])
    dest = os.path.join(res, name)
    if dest0 == "source":
        with open(main, "rb") as f:
            put(dest, f.read())
        main = dest
    elif dest0 == "old":
        put(dest, OLD)
    with open(dest, "rb") if dest0 != "none" else open(os.devnull, "rb") as f:
        oldb = f.read()

    def snapshot():
        s = {"dest": "none", "tmp": "none"}
        for f in sorted(os.listdir(res)):
            with open(os.path.join(res, f), "rb") as fh:
                data = fh.read()
            c = "old" if data == oldb else "new" if data == sample else "part"
            s["dest" if f == name else "tmp"] = c
        return s

    def fn():
        from resample import srs as m
        return m.main([srs, main, "-o", res, "-y"])
    before = tree_state(i)
    fault = tuple(case["fault"]) if case["fault"] else None
    t = faults.run(fn, [i, res, o], fault, snapshot=snapshot)
    same(tree_state(i), before, "the input files")
    d0 = "none" if dest0 == "none" else "old"
    outcome = "crash" if t["outcome"] == "crash" else "ok" if t["code"] == 0 else "error"
    if outcome == "error" and fault and fault[2] == "interrupt" and t["snaps"][-1]["dest"] == "new":
        outcome = "ok"       # interrupted when everything was in place already
    if fault is None and good:
        check(outcome == "ok", "the run without faults: %s", t)
    if not good and fault is None:
        check(outcome != "ok" or snapshot()["dest"] == "new", "wrong main accepted")
    mayleave = bool(fault and fault[0] == "event" and len(t["events"]) >= fault[1] and t["events"][fault[1] - 1][0] in ("os.remove", "os.unlink"))
    with open(os.path.join(case["out"], "%d.json" % case["i"]), "w") as f:
        json.dump({"snaps": t["snaps"], "outcome": outcome, "n": t["n"], "mayleave": mayleave, "dest0": d0, "size": len(sample)}, f)
    last = t["snaps"][-1]
    what = "%s with fault %s (%s)" % (case["scene"], fault, t["events"][fault[1] - 1] if fault and fault[0] == "event" and len(t["events"]) >= fault[1] else "")
    check(last["dest"] in (d0, "new"), "%s: NeverTorn: the destination is %s", what, last)
    if outcome == "error":
        check(last["dest"] == d0, "%s: FailureHarmless: error status, but the folder holds %s", what, last)
        check(last["tmp"] == "none" or mayleave, "%s: FailureHarmless: error status, temporary file left behind", what)
    elif outcome == "ok":
        check(last == {"dest": "new", "tmp": "none"}, "%s: SuccessMeansRight: status 0, but the folder holds %s", what, last)
    return {outcome: 1, "events": t["n"] or 0}


PARTS = {"main": case_main, "srs": case_srs, "names": case_names, "music": case_music, "fault": case_fault}
ALL = KINDS + ["mp3", "flac", "stream"]


def run(ctx):
    q = ctx.quick
    consts = dict(Kinds=Set(["video", "music"]), Verdicts=Set(["ok", "notfound", "short", "mismatch", "badsrs"]), Dests=Set(["none", "old", "source"]),
                  Answers=Set(["y", "n", "always"]), Protocol="atomic", OpFaults=Set(["write", "replace"]), Ways=Set(["same", "link", "outlink", "dots"]))
    pr = ctx.tlc("SampleResult", constants=consts, invariants=["Safe"], constraint="Emit")
    for proto in ("direct", "unlink", "names"):
        if ctx.tlc("SampleResult", constants=dict(consts, Protocol=proto), invariants=["Safe"], expect_fail=True).accepted:
            raise TLCError("SampleResult no longer distinguishes protocol " + proto)
    cfgs = [b["cfg"] for b in pr.behaviours if b["cfg"]["op"] == "none"]
    cfgs = [dict(t) for t in sorted({tuple(sorted(c.items())) for c in cfgs})]
    vid = [c for c in cfgs if c["kind"] == "video" and c["verdict"] == "ok" and c["way"] == "same"]
    one = [(p,) for p in patterns(4, 3)]
    base = dict(SigFs={1, 2, 3}, Muts=Set(prop_p10.MUTS), Modes=Set(["search", "stored"]))
    a = ctx.tlc("Sample", constants=dict(base, Pats=Set(one[::3] if q else one), Inters=Set(["alt"])), constraint="Emit", invariants=INVS)
    b = ctx.tlc("Sample", constants=dict(base, Pats=Set(TWO[:1] if q else TWO[:3]), SigFs={1, 2}, Inters=Set(["alt", "blocks"])),
                constraint="Emit", invariants=INVS, timeout=850)
    cases = []
    for grp, n in ((a.behaviours, 250 if q else 5000), (b.behaviours, 250 if q else 5000)):
        by = {}
        for x in grp:
            by.setdefault(x["verdict"], []).append(x)
        for v in sorted(by):
            for x in ctx.sample(by[v], n // 4):
                cases.append({"b": x, "kind": ctx.rng.choice(KINDS), "cfg": ctx.rng.choice(vid)})
    oks = [x for x in a.behaviours + b.behaviours if x["verdict"] == "ok" and x["mut"]["k"] == "none"]
    for x in ctx.sample(oks, 200 if q else 5000):
        cases.append({"b": x, "kind": ctx.rng.choice(KINDS), "cfg": ctx.rng.choice(vid), "damage": ctx.rng.choice(["cut", "flip", "shift", "zero", "other"])})
    ctx.replay(case_main, cases, "main", timeout=120)
    mus = [c for c in cfgs if c["kind"] == "music"]
    ctx.replay(case_music, [{"cfg": c, "ext": e, "n": n} for c in mus for e in ("mp3", "flac") for n in range(1 if q else 8)], "music", timeout=120)
    ctx.replay(case_srs, [{"kind": k, "damage": dm, "n": n} for k in ALL for dm in ("cut", "flip", "zero", "shift") for n in range(6 if q else 120)],
               "srs", timeout=120, count_traces=False)
    ctx.replay(case_names, [{"kind": k, "n": n} for k in (ALL if not q else ["avi", "mkv", "flac", "stream"]) for n in range(len(hostile("/x")))],
               "names", timeout=120, count_traces=False)
    # faults
    out = os.path.join(ctx.scratch, "tr")
    os.makedirs(out)
    scenes = [(k, ds, g, s) for k in ALL for ds in ("none", "old", "source") for g in (True, False) for s in ((1,) if q else (1, 2))
              if not (q and (k in ("mp4", "wmv") or (not g and ds == "none")))]
    bases = [{"scene": list(s), "fault": None, "i": k, "out": out} for k, s in enumerate(scenes)]
    ctx.replay(case_fault, bases, "fault", count_traces=False)
    fl = []
    for c in bases:
        p = os.path.join(out, "%d.json" % c["i"])
        if not os.path.exists(p):
            continue
        t = json.load(open(p))
        for k in range(1, (t["n"] or 0) + 1):
            fl += [(c, ("event", k, x)) for x in ("error", "interrupt", "crash")]
        size = t["size"]
        pts = {0, size - 1, size // 2, 30} | {ctx.rng.randrange(max(1, size)) for _ in range(0 if q else 12)}
        fl += [(c, ("write", p, kind)) for p in sorted(pts) for kind in ("error", "crash")]
    cases = [dict(c, fault=list(f), i=len(bases) + j) for j, (c, f) in enumerate(fl)]
    ctx.replay(case_fault, cases, "fault", count_traces=False)
    lines, meta = [], []
    for c in bases + cases:
        p = os.path.join(out, "%d.json" % c["i"])
        if os.path.exists(p):
            t = json.load(open(p))
            lines.append(json.dumps({k: t[k] for k in ("snaps", "outcome", "mayleave", "dest0")}))
            meta.append(c)
    r = ctx.tlc("CreateTrace", constants=dict(TraceFile="trace.ndjson"), extra_files={"trace.ndjson": "\n".join(lines) + "\n"})
    ctx.traces += len(lines)
    for b in r.behaviours:
        c = meta[b["trace"] - 1]
        ctx.fail("snapshots of %s with fault %s rejected at step %d: %s %s" % (c["scene"], c["fault"], b["step"], b["clause"], b["snap"]),
                 dict(c, out="/tmp"), part="fault")
    ctx.assumptions += ["with -k the user keeps a failed result, also over an existing file the replacement of which was agreed to",
                        "a damaged SRS can describe another file: only containment and clean-up are checked for it"]
