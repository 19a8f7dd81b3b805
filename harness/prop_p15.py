"""P15: damaged archives and samples.  Files cut at any place and files with one damaged field, generated by
spec/Damage.tla, are read with the block reader, the library and the command line tools; damaged samples and SRS
files go through the srs tool."""
import os
import random
import re
import struct
from . import rarfmt as R, cli, media
from .core import check, same, stable_hash
from .prop_p12 import any_srs, hurt
from .prop_p13 import put, fpcalc_dir, tree_state
from .tlc import Set

RAR_KINDS = ["file", "dir", "rr", "cmt", "unknown"]
SRR_KINDS = ["stored", "rarfile", "rarkeep", "oso", "file", "dir", "rr", "cmt", "padding", "unknown", "marker", "main", "end"]
TAILS = ["none", "end", "endfull", "endpad", "endfullpad"]
INVS = ["Beginning", "UpToDamage", "Noticed", "KeptRight"]
DOCUMENTED = (EnvironmentError, ValueError)


class Blk(object):
    """header: as in the file; data: what follows it in the file; shown: the bytes the reader has to report"""
    def __init__(self, kind, header, data=b"", incl=False, shown=None, raw=False):
        self.kind, self.header, self.data = kind, header, data
        self.cells = [len(data)] if raw else [7] + ([len(header) - 7] if len(header) > 7 else []) + ([len(data)] if data else [])
        self.shown = shown if shown is not None else header + (data if incl else b"")


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def block_of(kind, mode, kept, rng, i):
    n = rng.choice([2, 3, 20, 300, 2000])
    if kind == "marker":
        return Blk(kind, R.MARKER)
    if kind == "main":
        return Blk(kind, R.main_header(volume=rng.random() < .5, new_naming=rng.random() < .5, first=rng.random() < .3, solid=rng.random() < .2))
    if kind == "head":
        return Blk(kind, R.srr_header("an application " + "x" * rng.choice([0, 5, 60])))
    if kind in ("file", "dir"):
        big = rng.random() < .2
        name = "d\\f%d.bin" % i if rng.random() < .5 else "f%d" % i
        h = R.file_header(name, n if kind == "file" else 0, n if kind == "file" else 0, rng.getrandbits(32), directory=kind == "dir", large=big,
                          before=rng.random() < .3, after=rng.random() < .3, exttime=b"\x00\xf0\1\2\3\4\5" if rng.random() < .2 else b"",
                          unicode_=rng.random() < .2, salt=b"12345678" if rng.random() < .2 else None, host=rng.choice([0, 1, 2, 3, 4, 5, 9]),
                          method=rng.choice([0x30, 0x30, 0x33, 0x35, 0x40]), dict_bits=rng.choice([0, 0x20, 0xc0]))
        return Blk(kind, h, rb(rng, n) if kind == "file" and mode == "rar" else b"")
    if kind == "rr":
        h, data = (R.rr_new if rng.random() < .6 else R.rr_old)(rb(rng, rng.choice([600, 1500])), rng.choice([1, 2]))
        return Blk(kind, h, data if mode == "rar" or kept else b"", incl=mode == "srr" and kept)
    if kind == "cmt":
        how = rng.randrange(3)
        if how == 0:
            data = rb(rng, n)
            h = R.file_header("CMT", n, n + 9, 5, host=3, ver=29, method=0x33, attr=0, btype=0x7a, ftime=0)
            return Blk(kind, h, data, incl=True)
        if how == 1:
            raw = R.av_sub_79(rng)
            return Blk(kind, raw[:-50], raw[-50:], incl=True)
        data = rb(rng, n)
        raw = R.subblock(rng.choice(["ACL", "STM", "AV", "UOW"]), data, skip_long=rng.random() < .5)
        return Blk(kind, raw[:-n], data, incl=True)
    if kind == "unknown":
        data = rb(rng, n)
        raw = R.block(rng.choice([0x7c, 0x7f, 0x11, 0x01, 0xfe, 0x6d]), R.LONG_BLOCK | rng.choice([0, 0x10, 0x4000]), struct.pack("<I", n) + rb(rng, 5), data)
        return Blk(kind, raw[:-n], data, incl=True)
    if kind == "padding":
        data = rb(rng, n)
        return Blk(kind, R.srr_padding(data)[:11], data, incl=True)
    if kind == "stored":
        data = rb(rng, n)
        return Blk(kind, R.srr_stored("s%d.nfo" % i, data)[:-n], data)
    if kind in ("rarfile", "rarkeep"):
        return Blk(kind, R.srr_rar("v%d.rar" % i, kind == "rarfile"))
    if kind == "oso":
        return Blk(kind, R.srr_oso("o%d.mkv" % i, rng.choice([70000, 1 << 33]), rb(rng, 8)))
    if kind == "end":
        return Blk(kind, R.end_block("plain", rng.random() < .5, 0, b""))
    if kind == "endfull":
        return Blk(kind, R.end_block(rng.choice(["crc", "full"]), rng.random() < .5, 3, b"x"))
    if kind == "pad":
        data = rb(rng, rng.choice([2, 6, 7, 8, 30, 500]))
        return Blk(kind, b"", data, raw=True, shown=R.srr_padding(data))
    raise ValueError(kind)


def build(case, rng):
    bs = case["b"]
    kept, blks = False, []
    for i, k in enumerate(bs["blocks"]):
        blks.append(block_of(k, bs["mode"], kept, rng, i))
        kept = True if k == "rarkeep" else False if k == "rarfile" else kept
    for b, cells in zip(blks, bs["cells"]):
        check(len(b.cells) == len(cells), "harness: cells of %s are %s, the specification has %s", b.kind, b.cells, cells)
    return blks


def damage(blks, dm, rng):
    """-> bytes of the damaged file"""
    data = bytearray(b"".join(b.header + b.data for b in blks))
    if dm["k"] == "none":
        return bytes(data)
    pos = sum(len(b.header) + len(b.data) for b in blks[:dm["b"] - 1])
    b = blks[dm["b"] - 1]
    if dm["k"] == "cut":
        pos += sum(b.cells[:dm["c"] - 1])
        if dm["inside"]:
            n = b.cells[dm["c"] - 1]
            pos += rng.choice([1, n - 1, rng.randrange(1, n)])
        return bytes(data[:pos])
    if dm["k"] == "size0":
        data[pos + 5:pos + 7] = struct.pack("<H", rng.randrange(7))
    elif dm["k"] == "sizebig":
        left = len(data) - pos
        data[pos + 5:pos + 7] = struct.pack("<H", rng.choice([65535, left + 1, rng.randrange(left + 1, 65536)]))
    elif dm["k"] == "add":
        left = len(data) - pos - len(b.header)
        data[pos + 7:pos + 11] = struct.pack("<I", rng.choice([left + 1, left + 1000, 0x7fffffff, 0xffffffff, rng.randrange(left + 1, 1 << 32)]))
    else:
        if rng.random() < .3:                                 # several bytes or a whole new header
            n = rng.randrange(1, len(b.header) + 1)
            data[pos:pos + n] = rb(rng, n)
        else:
            for _ in range(rng.choice([1, 1, 2, 3])):
                p = pos + rng.choice([rng.randrange(len(b.header)), rng.randrange(min(len(b.header), 11))])
                data[p] = rng.choice([0, 255, data[p] ^ (1 << rng.randrange(8)), rng.randrange(256)])
    return bytes(data)


def walk(make):
    """-> (reported, error)"""
    got = []
    try:
        for b in make():
            got.append((b.block_position, bytes(b.block_bytes())))
            repr(b)
            b.explain()
            check(len(got) < 400, "the reader reports %d blocks of a file with a handful of them: endless", len(got))
    except DOCUMENTED as e:
        return got, e
    except Exception as e:
        if type(e).__module__.startswith("rescene"):
            return got, e
        raise
    return got, None


def case_read(case, d):
    from rescene import rar
    bs = case["b"]
    rng = random.Random(stable_hash([case["seed"], bs]))
    blks = build(case, rng)
    data = damage(blks, bs["damage"], rng)
    p = os.path.join(d, "x." + bs["mode"])
    put(p, data)
    want, pos = [], 0
    for b in blks:
        want.append((pos, b.shown))
        pos += len(b.header) + len(b.data)
    whole = want[:bs["n"]]
    partial = whole.pop() if whole and not bs["last"] else None
    how = rng.choice(["name", "name", "file"] + (["within"] if bs["mode"] == "rar" else []))
    opened = []

    def make():
        if how == "name":
            return rar.RarReader(p)
        opened.append(open(p, "rb"))
        if how == "file":
            return rar.RarReader(opened[-1])
        return rar.RarReader(opened[-1], len(data))
    for method in rng.sample(["iterate", "all", "all"], 2):
        if method == "iterate":
            got, err = walk(make)
        else:
            try:
                err, r = None, make()
                got = [(b.block_position, bytes(b.block_bytes())) for b in r.read_all()]
                same([(b.block_position, bytes(b.block_bytes())) for b in r.read_all()], got, "reading all blocks a second time")
            except DOCUMENTED as e:
                got, err = None, e
        if got is not None:
            n = len(whole)
            same(got[:n], whole, "blocks in front of the damage (%s, %s)" % (bs["damage"], method))
            if partial and len(got) > n:
                check(got[n][0] == partial[0], "the damaged block is reported at %d, it is at %d", got[n][0], partial[0])
            if bs["outcome"] == "ok" and not partial:
                same(got[n:], [], "blocks after the last one")
            if bs["outcome"] != "any":
                check(len(got) == bs["n"], "%d blocks reported, %d expected", len(got), bs["n"])
        if bs["outcome"] == "ok":
            check(err is None, "reading %s with damage %s fails: %r", bs["blocks"], bs["damage"], err)
        elif bs["outcome"] == "error":
            check(err is not None, "damage %s of %s is not noticed (%s)", bs["damage"], bs["blocks"], method)
        check(open(p, "rb").read() == data, "reading changed the file")
    for f in opened:
        f.close()


# -- what the library and the srr tool do with them -----------------------------------------------------
LIB = ["info", "hash", "extract", "add", "remove", "rename", "merge", "rebuild", "validate", "details"]
CLI = ["-l", "-e", "-x", "-s", "-q", "-r", "regex"]
EDITS = ("add", "remove", "rename", "-s")


def library(op, p, d):
    import rescene.main as rm
    rm.can_overwrite = lambda path: True
    o = os.path.join(d, "o")
    extra = os.path.join(d, "extra.nfo")
    if op == "info":
        return rm.info(p)
    if op == "hash":
        return rm.content_hash(p)
    if op == "extract":
        return rm.extract_files(p, o)
    if op == "add":
        return rm.add_stored_files(p, [extra], d)
    if op == "remove":
        return rm.remove_stored_files(p, ["s1.nfo"])
    if op == "rename":
        return rm.rename_stored_file(p, "s1.nfo", "renamed.nfo")
    if op == "merge":
        return rm.merge_srrs([os.path.join(d, "good.srr"), p], os.path.join(o, "m.srr"))
    if op == "rebuild":
        return rm.reconstruct(p, d, o)
    if op == "details":
        return rm.print_details(p)
    return rm.RarReader(p).list_files()


def case_use(case, d):
    bs = case["b"]
    rng = random.Random(stable_hash([case["seed"], bs, "use"]))
    blks = build(case, rng)
    data = damage(blks, bs["damage"], rng)
    p = os.path.join(d, "x." + bs["mode"])
    put(p, data)
    put(os.path.join(d, "extra.nfo"), b"extra")
    put(os.path.join(d, "good.srr"), R.srr_header("good application") + R.srr_stored("g.nfo", b"123"))
    os.makedirs(os.path.join(d, "o"))
    stored = {b.header[13:].decode(): b.data for b in blks[:bs["n"]] if b.kind == "stored"}
    for op in rng.sample(LIB + CLI, 4) if bs["mode"] == "srr" else rng.sample(["create", "hash", "stream", "validate", "details"], 2):
        put(p, data)
        before = tree_state(d)
        if op in LIB:
            def fn():
                try:
                    library(op, p, d)
                except DOCUMENTED + (AttributeError,) as e:
                    print("%s: %s" % (type(e).__name__, e))
                    return 1
                except Exception as e:
                    if not type(e).__module__.startswith("rescene"):
                        raise
                    print("%s: %s" % (type(e).__name__, e))
                    return 1
            r = cli.run_child(fn, cwd=d, timeout=20)
            check(bs["outcome"] == "any" or r.code in (0, 1), "%s of %s with damage %s fails with an internal error: %s", op, bs["blocks"], bs["damage"], r)
        elif op == "create":
            r = cli.srr([p, "-y"] + rng.choice([[], ["-c"]]) + ["-o", os.path.join(d, "o", "n.srr")], cwd=d, timeout=20)
        elif op == "stream":
            def fn():
                from rescene.rarstream import RarStream
                try:
                    RarStream(p).read()
                except DOCUMENTED + (AttributeError, IndexError) as e:
                    print(repr(e))
                    return 1
                except Exception as e:
                    if not type(e).__module__.startswith("rescene"):
                        raise
                    print(repr(e))
                    return 1
            r = cli.run_child(fn, cwd=d, timeout=20)
        else:
            o = os.path.join(d, "o")
            argv = {"-l": ["-l"], "-e": ["-e"], "-x": ["-x", "-y", "-p", "-o", o], "-s": ["-s", "extra.nfo"], "-q": ["-q"],
                    "-r": ["-y", "-o", o], "regex": ["--extract-regex", ".*", "-o", o]}[op]
            r = cli.srr([p] + argv, cwd=d, timeout=20)
        what = "%s of %s with damage %s" % (op, bs["blocks"], bs["damage"])
        check(r.code != "hang", "%s does not end", what)
        after = tree_state(d)
        if bs["outcome"] == "error":
            check(r.code != 0, "%s: ends without an error: %s", what, r)
            check(r.out.strip() or r.err.strip(), "%s: no message", what)
            same(after, before, "files after an error (%s)" % what)
        elif bs["outcome"] == "ok":
            if op in ("extract", "-x", "regex"):
                check(r.code == 0, "%s fails: %s", what, r)
                for n, x in stored.items():
                    with open(os.path.join(d, "o", n), "rb") as f:
                        same(f.read(), x, "stored file %s" % n)
            if op in ("-l", "-e", "info", "details", "validate"):
                check(r.code == 0, "%s fails: %s", what, r)
            if op == "-l":
                for n in stored:
                    check(n in r.out, "%s: %s is not listed: %s", what, n, r)
        if op not in EDITS:
            check(open(p, "rb").read() == data, "%s changes the file", what)
        for n in os.listdir(os.path.join(d, "o")):
            os.unlink(os.path.join(d, "o", n))


# -- damaged samples, SRS files and main files with the srs tool ----------------------------------------------
def case_sample(case, d):
    rng = random.Random(stable_hash([case["seed"], "sample"]))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    os.makedirs(o)
    os.makedirs(res)
    kind, what, how = case["kind"], case["what"], case["how"]
    srs, name, main, sample = any_srs(kind, i, o, rng, d)
    env = {"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}
    smp = os.path.join(i, "s", name)
    intact = cli.srs([srs, "-l"], cwd=d, env=env)
    check(intact.code == 0, "listing the intact SRS: %s", intact)
    target = {"sample": smp, "srs": srs, "main": main}[what]
    with open(target, "rb") as f:
        good = f.read()
    if how == "cut":
        n = rng.choice([0, 1, 8, 12, 30, len(good) - 1, len(good) - 2, rng.randrange(len(good)), rng.randrange(len(good))])
        bad = good[:max(0, min(n, len(good) - 1))]
    else:
        bad = hurt(good, how, rng)
    put(target, bad)
    before = tree_state(d)
    cmds = {"sample": [[smp, "-o", os.path.join(o, "new.srs")], [smp, "-i"], [smp, "-c", main, "-o", os.path.join(o, "new.srs")]],
            "srs": [[srs, "-l"]],
            "main": [[srs, main, "-o", res, "-y"], [smp, "-c", main, "-o", os.path.join(o, "new.srs")]]}[what]
    for argv in cmds:
        r = cli.srs(argv, cwd=d, env=env, timeout=60)
        w = "srs %s with a %s %s of %s" % (argv[1:], how, what, kind)
        check(r.code != "hang", "%s does not end", w)
        check(r.code != 96, "%s dies: %s", w, r)
        after = tree_state(d)
        if r.code != 0:
            check(r.out.strip() or r.err.strip(), "%s: exit %s without a message", w, r.code)
            same(after, before, "files after an error (%s)" % w)
        elif what == "srs" and how == "cut":
            plain = [re.sub(r" \[.*\]", "", x) for x in intact.out.splitlines()]
            for x in r.out.splitlines():                    # up to the damage; the codecs come from other places
                check(re.sub(r" \[.*\]", "", x) in plain, "%s: %r is listed, the intact SRS has %r", w, x, intact.out)
        elif what == "sample" and how == "cut" and kind in ("avi", "mkv", "mp4", "wmv"):
            check(False, "%s (%d of %d bytes) is accepted: %s", w, len(bad), len(good), r)
        if after != before:
            for n in set(after) - set(before):
                p = os.path.join(d, n)
                if os.path.isfile(p):
                    os.unlink(p)
    put(target, good)
    r = cli.srs([srs, main, "-o", res, "-y"], cwd=d, env=env)
    check(r.code == 0, "rebuilding from the intact files afterwards: %s", r)
    with open(os.path.join(res, name), "rb") as f:
        same(f.read(), sample, "sample rebuilt from the intact files afterwards")


PARTS = {"read": case_read, "use": case_use, "sample": case_sample}


def run(ctx):
    behs = []
    q = ctx.quick
    for mode, kinds, n, tails in (("rar", RAR_KINDS, 2 if q else 3, TAILS), ("srr", SRR_KINDS, 2 if q else 3, ["none"])):
        r = ctx.tlc("Damage", constants=dict(Mode=mode, Kinds=Set(kinds), MaxBlocks=n, Tails=Set(tails)), constraint="Emit", invariants=INVS,
                    properties=["Forward"] + (["Comes"] if q else []))
        behs += r.behaviours
    if not q:
        for mode, kinds, tails in (("rar", RAR_KINDS, TAILS), ("srr", SRR_KINDS, ["none"])):
            r = ctx.tlc("Damage", constants=dict(Mode=mode, Kinds=Set(kinds), MaxBlocks=7, Tails=Set(tails)), constraint="Emit", invariants=INVS, simulate=20000, depth=20, seed=ctx.seed)
            behs += r.behaviours
    behs = ctx.sample(behs, 9000 if q else 70000)
    ctx.replay(case_read, [{"b": b, "seed": ctx.rng.random()} for b in behs], "read", timeout=30)
    some = [b for b in ctx.sample(behs, 1200 if q else 12000)]
    ctx.replay(case_use, [{"b": b, "seed": ctx.rng.random()} for b in some], "use", timeout=120)
    cases = [{"kind": k, "what": w, "how": h, "seed": ctx.rng.random()} for k in ("avi", "mkv", "mp4", "wmv", "flac", "mp3", "stream")
             for w in ("sample", "srs", "main") for h in ("cut", "cut", "flip", "shift", "zero") for _ in range(3 if q else 120)]
    ctx.replay(case_sample, cases, "sample", timeout=240)
