"""P10: AVI, MKV, MP4 and WMV samples are rebuilt byte for byte (spec/Sample.tla).  The behaviours the
specification promises to rebuild are turned into real container files and run through the srs command line."""
import itertools
import os
import random
import zlib
from . import cli, media, rarset
from . import rarfmt as R
from .core import Failure, check, same, stable_hash
from .prop_p13 import put, tree_state
from .tlc import Set

INVS = ["Sound", "Complete", "OffsetTrue", "DoneMeansComplete"]
MUTS = ["drop", "alter", "trunc", "dup", "ins", "gone"]
SIZES = {1: (256, 600), 2: (128, 245), 3: (86, 123)}     # the last frame gives more of the signature than what frames have in common
KINDS = ["avi", "mkv", "mp4", "wmv"]


def patterns(n, k):
    """all sequences of n symbols out of k, up to renaming"""
    out = []
    for p in itertools.product(range(1, k + 1), repeat=n):
        seen = []
        for x in p:
            if x not in seen:
                seen.append(x)
        if seen == sorted(seen) and seen == list(range(1, len(seen) + 1)):
            out.append(p)
    return out


TWO = [((1, 2, 3, 4), (5, 6, 7, 8)), ((1, 2, 1, 3), (5, 6, 7, 8)), ((1, 1, 2, 3), (5, 6, 5)), ((1, 2, 3, 1), (5, 5, 6, 7))]
THREE = [((1, 2, 3), (4, 5, 6), (7, 8)), ((1, 2, 1), (4, 4), (7,))]


def mutate(s, m):
    s, i = list(s), m["i"] - 1
    if m["k"] == "drop":
        del s[i]
    elif m["k"] == "alter":
        s[i] += 100
    elif m["k"] == "trunc":
        del s[i:]
    elif m["k"] == "dup":
        s.insert(i, s[i])
    elif m["k"] == "ins":
        s.insert(i, 200)
    elif m["k"] == "gone":
        s = []
    return s


def order(main, inter):
    ts = sorted(main)
    if inter == "alt":
        return [(t, i) for i in range(max(map(len, main.values()))) for t in ts if i < len(main[t])]
    return [(t, i) for t in (ts if inter == "blocks" else ts[::-1]) for i in range(len(main[t]))]


def shuffle(counts, rng):
    """a random interleaving that keeps the order of each track"""
    seq = [t for t, n in counts.items() for _ in range(n)]
    rng.shuffle(seq)
    at = dict.fromkeys(counts, 0)
    out = []
    for t in seq:
        out.append((t, at[t]))
        at[t] += 1
    return out


def as_list(x):
    return list(x) if isinstance(x, (list, tuple)) else [x[k] for k in sorted(x, key=int)]


def frames(b, rng, kind, opts):
    """symbol -> bytes per track, of lengths that give a signature of b.sigf frames"""
    lo, hi = SIZES[b["sigf"]]
    pre = {t: media.rb(rng, 3) for t in range(1, 9)}
    text = (b"x264 - core 130 r2274 - H.264/MPEG-4 AVC codec - options: cabac=1 ref=3 deblock=1:0:0 " * 20)
    if opts.get("text"):
        pre[1] = text[:3]
    fixed = rng.random() < .3 and rng.randint(lo, hi)
    out = {}

    def get(t, sym):
        if (t, sym) not in out:
            n = fixed or rng.randint(lo, hi)
            if 100 < sym < 200:         # an altered frame keeps its length
                n = len(get(t, sym - 100)) - (opts.get("text", 0) if t == 1 else 0)
            d = media.rb(rng, n)
            if opts.get("prefixed"):
                d = pre[t] + d[3:]
            elif opts.get("ends"):      # every frame begins and ends with the same byte
                d = pre[t][:1] + d[1:-1] + pre[t][:1]
                if d[1:2] == pre[t][:1]:
                    d = d[:1] + bytes([d[1] ^ 1]) + d[2:]
            if opts.get("text") and t == 1:
                d = text[:opts["text"]] + d
            out[t, sym] = d
        return out[t, sym]
    return get, pre


def options(kind, rng, pre, tracks, which):
    o = {}
    pick = lambda **kw: [o.__setitem__(k, rng.choice(v)) for k, v in kw.items() if rng.random() < .35]
    if kind == "avi":
        pick(junk=[1, 33, 200], info=[1], avix=[1], rec=[1], ix=[1], idx1=[False], absidx=[1], padrnd=[1])
    elif kind == "mkv":
        pick(lace=["xiph", "fixed", "ebml"], lace_n=[2, 3, 5], group=["some", "all"], wide=[4, 8], crc=[1], void=[1, 20, 300], tags=[1],
             per_cluster=[1, 2, 6], cues=[False])
        if rng.random() < .4:
            o["strip"] = {t: s for t in tracks for s in [rng.choice(["-", None, b"", pre[t][:1], pre[t][:2], pre[t]])] if s != "-"}
    elif kind == "mp4":
        pick(chunk_n=[1, 2, 4], free=[0, 9], nullatom=[1], co64=[1], tabrev=[1], moov_last=[1], udta=[1], cbr=[False])
        if "moov_last" not in o and rng.random() < .25:
            o[rng.choice(["bigmdat", "openmdat"])] = 1
    elif kind == "wmv":
        pick(rep=[0, 8], padrnd=[1], seq=[1, 3], cut=[50, 200], index=[False], psize=[300, 500, 1400], maxpl=[2])
        c = rng.randrange(5)
        if c == 0:
            o.update(multi=False)
        elif c == 1:
            o.update(plen=2, shortlen=rng.choice([0, 1]))
        elif c == 2 and which == "sample":
            o.update(nohdr=1)
    return o


def first_number(kind, rng):
    if rng.random() < .6:
        return None
    return {"avi": rng.choice([1, 8]), "mkv": rng.choice([2, 100, 126, 127, 128, 200, 253]), "mp4": rng.choice([2, 300, 65534, 70000]),
            "wmv": rng.choice([2, 60])}[kind]


def build(kind, items, rng, o):
    for _ in range(4):
        try:
            return media.VIDEO[kind](items, rng, o)
        except ValueError:      # a layout that does not fit this data
            o.pop("plen", None)
            o.pop("shortlen", None)
    return media.VIDEO[kind](items, rng, {k: o[k] for k in ("first", "tracks", "strip") if k in o})


def scene(b, kind, rng, text=0, hole=0):
    """-> (sample bytes, original main bytes, main bytes to rebuild from, frames, facts)"""
    pats = {t: list(p) for t, p in enumerate(as_list(b["pat"]), 1)}
    cut = {t: c for t, c in enumerate(as_list(b["cut"]), 1)}
    n = len(pats)
    get, pre = frames(b, rng, kind, {"prefixed": kind == "mkv", "text": text, "ends": kind != "mkv" and rng.random() < .5})
    tracks = sorted(pats)
    samp = {t: pats[t][cut[t][0] - 1:cut[t][1] - 1] for t in tracks}
    empty = [t for t in tracks if not samp[t]]
    main = {t: mutate(pats[t], b["mut"]) if b["mut"]["t"] == t else pats[t] for t in tracks}
    first = first_number(kind, rng)
    so, mo = options(kind, rng, pre, tracks, "sample"), options(kind, rng, pre, tracks, "main")
    for o in (so, mo):
        if first is not None:
            o["first"] = first
    # a track without data may be declared or not
    so["tracks"] = tuple(t for t in tracks if t not in empty or rng.random() < .5)
    if so.get("nohdr") and len(so["tracks"]) < n:
        so.pop("nohdr")
    mo["tracks"] = tuple(tracks)
    if hole:
        mo["hole"] = hole
        if kind == "avi":
            mo["avix"] = 1
        if kind == "mp4":
            mo.pop("openmdat", None)
            mo["co64"] = 1
    if kind == "mkv" and rng.random() < .3:
        so["attach"] = [("att%d.jpg" % i, media.rb(rng, rng.choice([0, 5, 300]))) for i in range(rng.choice([1, 2]))]
        mo["attach"] = so["attach"] if rng.random() < .7 else so["attach"] + [("extra.ttf", b"font")]
    comp = kind == "wmv" and rng.random() < .2 and n > 1
    items_s = [(t, get(t, samp[t][i])) for t, i in shuffle({t: len(samp[t]) for t in tracks}, rng)]
    conv = lambda m: [(t, get(t, m[t][i])) for t, i in order(m, b["inter"])]
    orig, items_m = conv(pats), conv(main)
    if kind in ("avi", "wmv") and rng.random() < .6 and all(len(set(p)) == len(p) for p in pats.values()) and b["mut"]["k"] in ("none", "trunc"):
        seed = rng.random()     # the same cuts in both
        orig, items_m = merge(orig, random.Random(seed)), merge(items_m, random.Random(seed))
    sb = build(kind, items_s, rng, so)
    mrng = random.Random(rng.random())
    st = mrng.getstate()
    ob = build(kind, orig, mrng, dict(mo))
    mrng.setstate(st)
    mb = build(kind, items_m, mrng, dict(mo))
    late = [get(t, s)[300:] for t in tracks for s in samp[t][b["sigf"]:]]
    return sb, ob, mb, {"so": so, "mo": mo, "late": [x for x in late if len(x) > 40], "datalen": {t: sum(len(get(t, s)) for s in samp[t]) for t in tracks}}


def merge(items, rng):
    out = []
    for t, d in items:
        if out and out[-1][0] == t and rng.random() < .6:
            out[-1] = (t, out[-1][1] + d)
        else:
            out.append((t, d))
    return out


def rar_wrap(folder, name, data, rng, extra=True):
    """`name` stored in a multi-volume set, with files before and after it -> first volume"""
    os.makedirs(folder)
    n = min(rng.choice([1, 2, 3, 5]), max(1, len(data) - 1))
    naming = rng.choice(["old", "new", "num"]) if n > 1 else "old"
    cuts = sorted(rng.randrange(1, len(data)) for _ in range(n - 1))
    cuts = [0] + cuts + [len(data)]
    digits = max(len(str(n)), rng.choice([1, 2]))
    lead = media.rb(rng, rng.choice([0, 1, 50])) if extra else b""
    for i in range(n):
        part = data[cuts[i]:cuts[i + 1]]
        out = R.MARKER + R.main_header(n > 1, naming == "new", i == 0, False)
        if i == 0 and lead:
            out += R.file_header("first.nfo", len(lead), len(lead), zlib.crc32(lead), False, False) + lead
        out += R.file_header(name, len(part), len(data), zlib.crc32(part if i < n - 1 else data), i > 0, i < n - 1) + part
        if i == n - 1 and extra and rng.random() < .5:
            out += R.file_header("last.txt", 3, 3, zlib.crc32(b"end"), False, False) + b"end"
        out += R.end_block("crc", i < n - 1, i, out)
        put(os.path.join(folder, rarset.volume_name(naming, "set", i + 1, n, digits)), out)
    return os.path.join(folder, rarset.volume_name(naming, "set", 1, n, digits))


NAMES = ["smp", "grp-name.sample", "A b", "S\u00e4mple", "x.y.z", "sample-\u4e2d"]


def place_main(i, name, kind, data, rng):
    """writes the main video as a plain file or inside volumes -> (path, name)"""
    ext = media.EXT[kind]
    if rng.random() < .5:
        p = os.path.join(i, name, "main" + rng.choice([ext, ext, ext.upper()]))
        put(p, data)
        return p
    inner = rng.choice(["main", "sub\\main", "Rel.Name"]) + rng.choice([ext, ext, ext.upper()])
    return rar_wrap(os.path.join(i, name), inner, data, rng)


def make_srs(sb, ob, kind, mode, i, o, rng, d, findorig=True):
    """creates the SRS -> (path, sample name, created with offsets?)"""
    name = rng.choice(NAMES) + rng.choice([media.EXT[kind]] * 3 + [media.EXT[kind].upper()])
    sample = os.path.join(i, "Sample", name)
    put(sample, sb)
    argv = [sample, "-y"] if rng.random() < .3 else [sample]
    if rng.random() < .2:
        argv.append("-b")
    c = rng.randrange(5)
    srs, cwd = os.path.join(o, "res.srs"), d
    if c == 0:
        argv += ["-o", srs]
    elif c == 1:
        argv += ["-o", o]
        srs = os.path.join(o, name.rsplit(".", 1)[0] + ".srs")
    elif c == 2:
        argv += ["-o", o, "--d"]
        srs = os.path.join(o, "Sample.srs")
    elif c == 3:
        argv += ["-o", o, "--dd"]
        srs = os.path.join(o, os.path.basename(i) + ".srs")
    else:
        srs, cwd = os.path.join(o, name.rsplit(".", 1)[0] + ".srs"), o
    offsets = mode == "stored" or (findorig and rng.random() < .3)
    if offsets:
        argv += ["-c", place_main(i, "orig", kind, ob, rng)]
    if rng.random() < .1:          # only show what is in the sample
        r = cli.srs([sample, "-i"], cwd=cwd)
        check(r.code == 0 and os.listdir(o) == [], "srs -i: %s", r)
    r = cli.srs(argv, cwd=cwd)
    check(r.code == 0 and os.path.isfile(srs), "creating the SRS of a %s sample%s failed: %s", kind, " with -c" if offsets else "", r)
    return srs, name, offsets


def check_srs(srs, name, sb, d, facts, kind):
    with open(srs, "rb") as f:
        data = f.read()
    for x in facts["late"]:
        check(x not in data, "the SRS holds stream data")
    r = cli.srs([srs, "-l"], cwd=d)
    check(r.code == 0, "the SRS cannot be listed: %s", r)
    lines = {k.strip(): v.strip() for k, _, v in (x.partition(":") for x in r.out.splitlines())}
    same(lines.get("Sample Name"), name, "sample name in the SRS")
    same(lines.get("Sample Size", "").replace(",", ""), str(len(sb)), "sample size in the SRS")
    same(lines.get("Sample CRC"), "%08X" % (zlib.crc32(sb) & 0xffffffff), "sample CRC in the SRS")


def case_rebuild(case, d):
    b, kind = case["b"], case["kind"]
    rng = random.Random(stable_hash(case))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    os.makedirs(o)
    sb, ob, mb, facts = scene(b, kind, rng, text=case.get("text", 0))
    srs, name, offsets = make_srs(sb, ob, kind, b["mode"], i, o, rng, d, b["findorig"])
    what = "%s sample %s of %s (%s)" % (kind, b["cut"], b["pat"], {k: str(facts[k])[:200] for k in ("so", "mo")})
    check_srs(srs, name, sb, d, facts, kind)
    if offsets and b["mode"] == "stored" and rng.random() < .5:
        main = place_main(i, "again", kind, mb, rng)
    else:
        main = place_main(i, "main", kind, mb, rng)
    argv = [srs, main, "-o", res]
    if offsets and b["mode"] == "search" or rng.random() < .1 and b["mode"] == "search":
        argv.append("-m")
    if rng.random() < .3:
        argv.append("-k")
    old = rng.random() < .25
    if old:
        put(os.path.join(res, name), b"older")
        argv.append("-y")
    before = tree_state(i)
    with open(srs, "rb") as f:
        srsb = f.read()
    r = cli.srs(argv, cwd=d)
    check(r.code == 0, "%s: rebuilding fails: %s", what, r)
    got = tree_state(res)
    same(sorted(got), [name], "files in the output folder")
    check(got[name] == sb, "%s: the rebuilt sample differs from the original", what)
    same(tree_state(i), before, "input files")
    with open(srs, "rb") as f:
        check(f.read() == srsb, "the SRS file changed")
    return {kind: 1, "offsets": int(offsets), "rar": int(os.path.basename(main).startswith("set."))}


def place_huge(i, name, kind, data, rng):
    """place_main for a main video with a hole"""
    ext = media.EXT[kind]
    folder = os.path.join(i, name)
    os.makedirs(folder)
    if rng.random() < .5:
        p = os.path.join(folder, "main" + ext)
        with open(p, "wb") as f:
            data.write(f, 0, len(data))
        return p
    inner = rng.choice(["main", "sub\\main"]) + ext
    size, naming = len(data), rng.choice(["old", "new"])
    near = [len(data.pre), size - len(data.post), 1 << 31, 1 << 32, 1, size - 1]
    cuts = sorted({min(size - 1, max(1, rng.choice(near) + rng.choice([-1, 0, 1, 20]))) for _ in range(rng.choice([0, 1, 2, 4]))})
    cuts = [0] + cuts + [size]
    n = len(cuts) - 1
    for v in range(n):
        part = cuts[v + 1] - cuts[v]
        head = R.MARKER + R.main_header(n > 1, naming == "new", v == 0, False)
        head += R.file_header(inner, part, size, 0x11111111, v > 0, v < n - 1, large=True)
        with open(os.path.join(folder, rarset.volume_name(naming, "set", v + 1, n, 2)), "wb") as f:
            f.write(head)
            data.write(f, cuts[v], part)
            f.write(R.end_block("plain", v < n - 1, v, head))
    return os.path.join(folder, rarset.volume_name(naming, "set", 1, n, 2))


def case_huge(case, d):
    """The sample lies beyond 2 or 4 GiB in the main video (a sparse file)."""
    b, kind = case["b"], case["kind"]
    rng = random.Random(stable_hash(case))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    for x in (i, o):
        os.makedirs(x)
    sb, ob, mb, facts = scene(b, kind, rng, hole=case["hole"])
    ob, mb = media.Holed(ob, case["hole"]), media.Holed(mb, case["hole"])
    sample, srs = os.path.join(i, "s" + media.EXT[kind]), os.path.join(o, "s.srs")
    put(sample, sb)
    argv = [sample, "-o", srs] + (["-b"] if rng.random() < .5 else [])
    if b["mode"] == "stored":
        argv += ["-c", place_huge(i, "orig", kind, ob, rng)]
    what = "%s sample %s of %s in a main video of %d bytes (%s)" % (kind, b["cut"], b["pat"], len(mb), facts["mo"])
    r = cli.srs(argv, cwd=d)
    check(r.code == 0 and os.path.isfile(srs), "%s: creating the SRS fails: %s", what, r)
    check(os.path.getsize(srs) < len(sb) + 20000, "%s: the SRS has %d bytes", what, os.path.getsize(srs))
    main = place_huge(i, "main", kind, mb, rng)
    r = cli.srs([srs, main, "-o", res], cwd=d)
    check(r.code == 0, "%s: rebuilding fails: %s", what, r)
    got = tree_state(res)
    same(sorted(got), ["s" + media.EXT[kind]], "files in the output folder")
    check(list(got.values())[0] == sb, "%s: the rebuilt sample differs from the original", what)
    return {kind: 1}


TEXT = (b"x265 (build 40) - 1.4+102:[Linux][GCC 4.8.2][64 bit] 8bpp - options: wpp ctu=64 min-cu-size=8 rc=crf " * 120)


def case_guess(case, d):
    """Key frames of a track all begin with a text that is longer than a signature can be (spec/Guess.tla)."""
    b, big = case["b"], case["big"]
    rng = random.Random(stable_hash(case))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    for x in (i, o):
        os.makedirs(x)
    lo, hi = b["a"] - 1, b["z"]
    size = {t: (1000001 if big else 400000) // sum(1 for u, _ in b["main"][lo:hi] if u == t) + 1 for t in {t for t, _ in b["main"]}}
    frames = []
    for n, (t, key) in enumerate(b["main"]):
        if t not in b["bad"]:
            data = media.rb(rng, rng.randint(256, 900))
        elif key:
            data = TEXT[:10300] + media.rb(rng, max(300, size[t] - 10300))
        else:
            data = b"\xff" + media.rb(rng, size[t] + (max(300, size[t] - 10300) - (size[t] - 10300)) - 1)
        frames.append((t, data))
    pre = {t: TEXT[:3] if t in b["bad"] else b"" for t in range(1, 9)}
    so, mo = ({k: v for k, v in options("mkv", rng, pre, [], w).items() if k not in ("lace", "lace_n", "strip")} for w in ("sample", "main"))
    so["tracks"] = mo["tracks"] = tuple(sorted({t for t, _ in frames}))
    first = first_number("mkv", rng)
    if first is not None:
        so["first"] = mo["first"] = first
    if rng.random() < .3:
        so["attach"] = mo["attach"] = [("a.jpg", media.rb(rng, 300)), ("b.ttf", b"font")]
    sb, mb = media.mkv(frames[lo:hi], rng, so), media.mkv(frames, rng, mo)
    sample, srs = os.path.join(i, "Sample", "s.mkv"), os.path.join(o, "s.srs")
    put(sample, sb)
    argv = [sample, "-o", srs] + (["-c", place_main(i, "orig", "mkv", mb, rng)] if rng.random() < .4 else [])
    what = "sample %s-%s of %s, long text at the beginning of %s" % (b["a"], b["z"], b["main"], b["bad"])
    r = cli.srs(argv, cwd=d)
    check(r.code == 0, "%s: creating the SRS fails: %s", what, r)
    main = place_main(i, "main", "mkv", mb, rng)
    argv = [srs, main, "-o", res] + (["-m"] if rng.random() < .3 else [])
    before = tree_state(i)
    r = cli.srs(argv, cwd=d)
    got = tree_state(res)
    check(r.code not in ("hang", 96, 99), "%s: %s", what, r)
    promised = b["first"] or (big and b["promised"])
    check(not promised or r.code == 0, "%s: rebuilding fails: %s", what, r)
    if r.code == 0:
        same(sorted(got), ["s.mkv"], "files in the output folder")
        check(got["s.mkv"] == sb, "%s: the rebuilt sample differs from the original", what)
    else:
        same(got, {}, "files in the output folder after a failure")
    same(tree_state(i), before, "input files")
    return {"rebuilt": int(r.code == 0), "promised": int(promised)}


PARTS = {"rebuild": case_rebuild, "huge": case_huge, "guess": case_guess}


def behaviours(ctx, muts):
    q = ctx.quick
    modes = Set(["search", "stored"])
    one = [(p,) for p in patterns(4 if q else 5, 3)]
    base = dict(SigFs={1, 2, 3}, Muts=Set(muts), Modes=modes)
    a = ctx.tlc("Sample", constants=dict(base, Pats=Set(one), Inters=Set(["alt"])), constraint="Emit", invariants=INVS, timeout=850)
    two = TWO if not q else TWO[:3]
    b = ctx.tlc("Sample", constants=dict(base, Pats=Set(two[:2] if q else two), SigFs={1, 2}, Inters=Set(["alt", "blocks", "rev"]), Modes=Set(["search"])),
                constraint="Emit", invariants=INVS, timeout=850)
    out = [a.behaviours, b.behaviours]
    x = ctx.tlc("Sample", constants=dict(base, Pats=Set([((1, 2, 1, 3),), ((1, 2, 3), (5, 6))]), SigFs={1, 2}, Inters=Set(["alt", "rev"])),
                constraint="Emit", invariants=INVS, properties=["Ends"])
    out.append(x.behaviours)
    c = ctx.tlc("Sample", constants=dict(base, Pats=Set(THREE if not q else THREE[1:]), SigFs={1, 2}, Muts=Set(muts[:2]), Inters=Set(["alt", "rev"])),
                constraint="Emit", invariants=INVS, timeout=850)
    out.append(c.behaviours)
    return out


def guess(ctx):
    q = ctx.quick
    inv = ["Sound", "Complete"]
    ctx.tlc("Guess", constants=dict(Good={1}, Bad={2}, MaxLen=4, Faulty="firstonly"), invariants=inv, expect_fail=True)
    one = ctx.tlc("Guess", constants=dict(Good={1}, Bad={2}, MaxLen=6 if q else 7, Faulty="none"), constraint="Emit", invariants=inv, properties=["Ends"])
    two = ctx.tlc("Guess", constants=dict(Good={1}, Bad={2, 3}, MaxLen=7, Faulty="none"), constraint="Emit", invariants=inv, simulate=400 if q else 4000,
                  depth=40)
    mix = ctx.tlc("Guess", constants=dict(Good={1, 3}, Bad={2}, MaxLen=8, Faulty="none"), constraint="Emit", invariants=inv, simulate=400 if q else 4000,
                  depth=40)
    cases = []
    for r, n in ((one, 60), (two, 40), (mix, 40)):
        behs = r.behaviours
        hard = [b for b in behs if b["promised"] and not b["first"]]
        mixed = [b for b in hard if b["mixed"]]
        for b in ctx.sample(mixed, n // 4 if q else 3 * n) + ctx.sample(hard, n * 3 // 4 if q else 9 * n) + ctx.sample([b for b in behs if not b["promised"]], n // 6 if q else 2 * n) + \
                ctx.sample([b for b in behs if b["first"]], n // 6 if q else 2 * n):
            cases.append({"b": b, "big": ctx.rng.random() < .9})
    ctx.replay(case_guess, cases, "guess", timeout=120)


def run(ctx):
    groups = behaviours(ctx, ["none"] + (MUTS if not ctx.quick else ["dup", "alter"]))
    n = (350, 350, 150, 200) if ctx.quick else (9000, 9000, 3000, 4000)
    cases = []
    for g, k in zip(groups, n):
        good = [b for b in g if b["promised"]]
        for j, b in enumerate(ctx.sample(good, k)):
            cases.append({"b": b, "kind": KINDS[(j + ctx.rng.randrange(4)) % 4]})
    huge = [b for g in groups for b in g if b["promised"] and b["mut"]["k"] == "none"]
    ctx.replay(case_huge, [{"b": b, "kind": k, "hole": ctx.rng.choice([(1 << 31) - 300, (1 << 32) - 200, (1 << 32) + 5, 5000000000] if k != "avi" else
                                                                      [(1 << 31) - 300, (1 << 32) - 200])}
                           for b in ctx.sample(huge, 20 if ctx.quick else 500) for k in KINDS], "huge", timeout=120)
    guess(ctx)
    # text at the start of the frames: the signature has to be longer than usual
    uniq = [b for b in groups[0] if b["promised"] and b["sigf"] == 1 and b["mut"]["k"] == "none"]
    cases += [{"b": b, "kind": "mkv", "text": t} for b in ctx.sample(uniq, 15 if ctx.quick else 300) for t in (100, 200, 300, 700, 1500)]
    ctx.replay(case_rebuild, cases, "rebuild", timeout=120)
    ctx.assumptions += ["the beginning of the data of each track (its signature) occurs in one place only of the main video and no partial copy of it "
                        "runs into that place", "MP4: one mdat atom, exactly filled by the track data; MKV: attachments before the clusters, "
                        "unique names, clusters of known size", "distinct frames differ in their first bytes"]
