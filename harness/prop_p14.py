"""P14: fingerprints.  spec/Oso.tla (hash of a file spread over volumes), spec/Crc.tla (combining checksums),
spec/Finger.tla (content fingerprint along histories of changes)."""
import json
import os
import random
import zlib
from . import rarfmt as R, rarset, srrmodel as M
from .core import Failure, check, same, stable_hash
from .prop_p03 import A, S, V, O
from .prop_p13 import put
from .tlc import Set, Fn


# -- OpenSubtitles hash ------------------------------------------------------------------------------
def case_oso(case, d):
    import rescene.main as rm
    from rescene import osohash
    b = case["b"]
    rng = random.Random(stable_hash(case))
    unit = 65536 // case["k"]
    # the lengths of the model's chunks in bytes; the file need not be a multiple of anything
    cut = [n * unit for n in b["chunks"]]
    if rng.random() < .6 and b["has"] and len(cut) > 1:
        j = rng.randrange(len(cut) - 1)
        x = rng.choice([1, 7, 8, 100, unit - 1, 1 - unit, -1, -8])
        if cut[j] + x > 0 and cut[j + 1] - x > 0:
            cut[j] += x
            cut[j + 1] -= x
    if rng.random() < .5:
        cut[-1] += rng.choice([1, 3, 7, 8, 4097]) if b["has"] else rng.choice([0, unit - 1])
    size = sum(cut)
    data = R.pattern("oso%s" % case["n"], size) if rng.random() < .85 else rng.choice([b"\xff", b"\0"]) * size
    small = R.pattern("other", 70000)
    ext = rng.choice([".mkv", ".avi", ".MP4"])
    name = rng.choice(["", "sub\\"]) + "movie" + ext
    other = rng.choice([None, None, "aa.mkv", "zz.avi", "readme.txt", "sub\\movie2.mkv", "xmovie" + ext, "movie" + ext])
    if other and other.lower() == name.lower():
        other = None
    first = rng.random() < .5
    old = rng.random() < .5
    rel = os.path.join(d, "rel")
    n = len(cut)
    pos = 0
    names = []
    for i, c in enumerate(cut):
        v = R.MARKER + R.main_header(n > 1, not old, i == 0)
        if other and first and i == 0:
            v += R.file_header(other, len(small), len(small), zlib.crc32(small)) + small
        part = data[pos:pos + c]
        pos += c
        v += R.file_header(name, c, size, zlib.crc32(data if i == n - 1 else part), i > 0, i < n - 1) + part
        if other and not first and i == n - 1:
            v += R.file_header(other, len(small), len(small), zlib.crc32(small)) + small
        v += R.end_block("plain", i < n - 1, i, v)
        names.append(rarset.volume_name("old" if old else "new", "grp", i + 1, n, 2))
        put(os.path.join(rel, names[-1]), v)
    plain = os.path.join(d, "plain" + ext)
    put(plain, data)
    want = ("%016x" % R.osohash(data), size) if size >= 65536 else None
    top = os.path.join(rel, names[0])

    def hashed(what, fn):
        try:
            got = fn()
        except ValueError:
            got = None
        same(got, want, "%s, %d bytes in parts of %s" % (what, size, cut))
    hashed("plain file", lambda: osohash.compute_hash(plain))
    with open(plain, "rb") as f:
        hashed("open file", lambda: osohash.compute_hash(f))
    arg = rng.choice([name, os.path.join(*name.split("\\"))])
    hashed("out of the RARs", lambda: osohash.osohash_from(top, arg))
    if not (other and first):
        hashed("first file of the RARs", lambda: osohash.osohash_from(top))
    if other and other.lower().endswith((".mkv", ".avi")):
        same(osohash.osohash_from(top, other.replace("\\", os.sep)) if first else want, ("%016x" % R.osohash(small), len(small)) if first else want, "the other file")
    sfv = os.path.join(rel, "grp.sfv")
    put(sfv, "".join("%s %08x\n" % (x, zlib.crc32(open(os.path.join(rel, x), "rb").read())) for x in names).encode())
    srr = os.path.join(d, "x.srr")
    rm.create_srr(srr, [rng.choice([sfv, top])], rel, [], False, False, True)
    got = sorted((x, h, s) for x, h, s in rm.info(srr)["oso_hashes"])
    exp = [("movie" + ext,) + want] if want else []
    if other and os.path.splitext(other)[1].lower() in (".mkv", ".avi", ".mp4"):
        exp.append((other.split("\\")[-1], "%016x" % R.osohash(small), len(small)))
    same(got, sorted(exp), "hashes in the SRR, %d bytes in parts of %s" % (size, cut))
    return {"hash" if want else "none": 1}


# -- checksums of concatenations -----------------------------------------------------------------------
POLY = 0xedb88320


def mulmod(a, b):
    """Product of two reflected polynomials modulo the CRC-32 polynomial."""
    p, m = 0, 1 << 31
    while True:
        if a & m:
            p ^= b
            if not a & (m - 1):
                return p
        m >>= 1
        if not m:
            return p
        b = (b >> 1) ^ POLY if b & 1 else b >> 1


def combined(c1, c2, n):
    """CRC of a concatenation by square and multiply on x^(8n)."""
    if n <= 0:
        return c1
    x, e, r = 0x40000000, 8 * n, 0x80000000      # x^1, exponent, x^0
    while e:
        if e & 1:
            r = mulmod(r, x)
        x = mulmod(x, x)
        e >>= 1
    return mulmod(r, c1) ^ c2


def case_crc(case, d):
    from rescene import crc32combine as cc
    rng = random.Random(stable_hash(case))
    funcs = {"python": cc.crc32_combine, "found": cc.crc32_combine_function(), "ctypes": cc.crc32_combine_ctypes}
    # the binary digits of the length land on bits chosen for this case
    digits = case["b"]["b"]
    bits = sorted(rng.sample(range(case["bits"]), len(digits)))
    if case["bits"] > 20 and digits and rng.random() < .5:
        bits[-1] = rng.choice([30, 31, 32, 33, 39])
    n2 = sum(x << p for x, p in zip(digits, bits))
    same(combined(zlib.crc32(b"abc"), zlib.crc32(b"defgh"), 5), zlib.crc32(b"abcdefgh"), "self-test")
    if n2 <= 1 << 18:
        a, b = R.pattern("a", rng.choice([0, 1, case["b"]["a"], 5000])), R.pattern("b%s" % case["n"], n2)
        c1, c2, want = zlib.crc32(a), zlib.crc32(b), zlib.crc32(a + b)
        same(combined(c1, c2, n2), want, "self-test")
    else:
        c1, c2 = (rng.choice([0, 1, 0xffffffff, 0x80000000, rng.getrandbits(32)]) for _ in (1, 2))
        want = combined(c1, c2, n2)
    for k, f in sorted(funcs.items()):
        same(f(c1, c2, n2) & 0xffffffff, want, "%s combination of %#x and %#x, second length %d" % (k, c1, c2, n2))
    return {"big" if n2 >= 1 << 31 else "small": 1}


# -- content fingerprint ------------------------------------------------------------------------------
VN = ["b.rar", "B.rar", "CD1/b.RAR", "a.rar", "A.RAR", "sub/a.rar", "c.r00", "x/bb.rar", "X/Bb.rar", "y/bb.rar"]
# volumes of the same name in different folders are sorted by folder
RANK = {"b.rar": 2, "B.rar": 2, "CD1/b.RAR": 2, "a.rar": 1, "A.RAR": 1, "sub/a.rar": 1, "c.r00": 5, "x/bb.rar": 3, "X/Bb.rar": 3, "y/bb.rar": 4}
INITS = [[A("app one"), V("b.rar", 0), V("a.rar", 1)], [A(""), S("x.nfo", 1), V("a.rar", 2)],
         [A("other application"), V("b.rar", 3), V("c.r00", 3), O("m.mkv", 1)],
         [A("discs"), V("x/bb.rar", 0), V("y/bb.rar", 1), V("a.rar", 2)]]


def fconsts(depth):
    return dict(Inits=Set(INITS), Apps={"", "another"}, News=Set([S("n.nfo", 3), S("z.sfv", 0)]), Variants={0, 1, 2, 3},
                VNames=set(VN), Rank=Fn(RANK), Osos=Set([O("m.mkv", 2)]), Depth=depth)


FINVS = ["PackagingIsInvisible", "OrderIsInvisible", "MetadataShows", "Distinct"]


def part(p):
    if p["k"] == "vol":
        bl = M.vol_blocks("v", p["d"])
        return R.srr_rar(p["n"]) + b"".join(x[0] for x in bl)
    return M.part_bytes(p)


def case_finger(case, d):
    import rescene.main as rm
    seen = {}
    algo = case["algo"]
    for i, st in enumerate(case["h"]):
        p = os.path.join(d, "%d.srr" % i)
        put(p, b"".join(part(x) for x in st["srr"]))
        h = rm.content_hash(p, algo) if algo else rm.content_hash(p)
        key = tuple(st["print"])
        desc = [(x["k"], x["n"], x["d"]) for x in st["srr"]]
        for k2, (h2, d2) in seen.items():
            if k2 == key:
                check(h == h2, "fingerprints of %s and %s differ, specification the same", desc, d2)
            else:
                check(h != h2, "fingerprints of %s and %s are the same, specification different", desc, d2)
        seen.setdefault(key, (h, desc))
    return {"steps": len(case["h"]) - 1, "different": len(seen)}


PARTS = {"oso": case_oso, "crc": case_crc, "finger": case_finger}


def run(ctx):
    q = ctx.quick
    ctx.assumptions = ["volumes of one SRR have distinct lower-case names", "lengths below 2^63"]
    o = []
    for k, mx, cuts in [(4, 13, 3), (2, 6, 4)] + ([] if q else [(3, 9, 5), (8, 20, 3)]):
        r = ctx.tlc("Oso", constants=dict(K=k, MaxLen=mx, Cuts=cuts, Mod=97), constraint="Emit",
                    invariants=["HashOfPlainFile", "OnlySmallFilesRefused", "InFile"])
        o += [(k, b) for b in ctx.sample(r.behaviours, 200 if q else 1500)]
    ctx.replay(case_oso, [{"k": k, "b": b, "n": i} for i, (k, b) in enumerate(o)], "oso")
    r = ctx.tlc("Crc", constants=dict(W=3, Polys=set(range(4, 8)), MaxBits=5 if q else 7), constraint="Emit", invariants=["Combined", "OpIsPower", "Partial"])
    if not q:
        ctx.tlc("Crc", constants=dict(W=5, Polys={18, 20, 23, 29}, MaxBits=5), invariants=["Combined", "OpIsPower", "Partial"])
    ctx.replay(case_crc, [{"b": b, "bits": bits, "n": n} for b in r.behaviours for bits in (8, 17, 40) for n in range(10 if q else 60)], "crc")
    f = ctx.tlc("Finger", constants=fconsts(2), constraint="Emit", invariants=FINVS)
    hs = ctx.sample(f.behaviours, 1500 if q else 8000)
    g = ctx.tlc("Finger", constants=fconsts(6 if q else 10), constraint="Emit", invariants=FINVS, simulate=60 if q else 600, depth=12)
    hs += ctx.sample(g.behaviours, 600 if q else 5000)
    ctx.replay(case_finger, [{"h": h, "algo": [None, "sha1", "md5"][i % 3], "n": i} for i, h in enumerate(hs)], "finger")
