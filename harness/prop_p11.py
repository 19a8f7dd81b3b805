"""P11: MP3, FLAC and program-stream samples are rebuilt byte for byte.  Music.tla gives the tags of the source and
of the file to rebuild from, StreamCut.tla the places of a sample in a file that is searched in windows."""
import itertools
import os
import random
import struct
import zlib
from . import cli, media
from .core import check, same, stable_hash
from .prop_p10 import check_srs, rar_wrap
from .prop_p13 import fpcalc_dir, put, tree_state
from .tlc import Set

MINVS = ["Sound", "Complete", "Clean", "ReadBack"]
SINVS = ["Sound", "Complete", "Earliest"]
LOOKALIKES = [b"ID3\x03\0\0\0\0\1\0", b"TAG", b"APETAGEX", b"SRSF", b"SRST", b"LYRICS200", b"fLaC", b"RIFF", b"ID3", b"LYRICSEND"]


def audio(rng, n, first):
    b = bytearray(media.rb(rng, n))
    if first == "mp3":
        b[:4] = rng.choice([b"\xff\xfb\x90\x00", b"\xff\xf3\x40\xc4", b"\xff\xe3\x18\xc4", b"\xff\xfa\x90\x64"])[:n]
    elif first == "flac":
        b[:2] = rng.choice([b"\xff\xf8", b"\xff\xf9"])[:n]
    elif first == "riff":
        head = b"RIFF" + struct.pack("<L", n - 8) + b"WAVEfmt \x1e\0\0\0\x55\0\x02\0"
        b[:len(head)] = head
    return bytes(b)


class Parts(object):
    """bytes for the parts of a file; the same piece of music has the same bytes everywhere"""
    def __init__(self, kind, rng):
        self.kind, self.rng, self.music = kind, rng, {}
        self.small = rng.random() < .15
        self.clean = False          # junk between tags is told apart by marks that may not occur in the data then

    def get(self, part, last):
        rng = self.rng
        text = lambda lo, hi: bytes(rng.randrange(32, 127) for _ in range(rng.randint(lo, hi)))
        if part[0] in "mr" and part[1:].isdigit():
            if part not in self.music:
                big = rng.choice([300, 257, 256, 1500, 70000, 140000]) if rng.random() < .5 else rng.randint(256, 900)
                n = rng.randint(40, 255) if self.small else big
                first = "riff" if part[0] == "r" else {"m1": self.kind, "m9": self.kind}.get(part)
                d = bytearray(audio(rng, n, first))
                if part != "r1" and n > 256 + 100 and rng.random() < .3:
                    x = rng.choice([l for l in LOOKALIKES if not self.clean or l[:3] not in (b"ID3", b"RIF", b"SRS")])
                    p = rng.randrange(260, n - 50)
                    d[p:p + len(x)] = x
                self.music[part] = bytes(d)
            return self.music[part]
        if part == "id3":
            n = rng.choice([0, 1, 10, 100, 127, 128, 300, 70000])
            t = media.rb(rng, n) if rng.random() < .5 else text(n, n)
            return media.id3v2(t.replace(b"ID3", b"id3").replace(b"RIFF", b"riff"), rng.choice([2, 3, 4]))
        if part == "j":
            n = rng.choice([1, 2, 3, 50, 256, 1000, 65280, 65281, 65300, 65536, 65537, 65791, 65792, 131000])
            return (b"\x01" + media.rb(rng, n))[:n].replace(b"\xff", b"\x11").replace(b"ID3", b"id3")
        if part in ("ape1", "ape2"):
            items = [(b"Title", text(0, 50)), (b"Cover Art", media.rb(rng, rng.choice([0, 400, 9000])))][:rng.randint(0, 2)]
            return media.ape(items, 1000 if part == "ape1" else 2000)
        if part == "lyr1":
            return media.lyrics3v1(text(0, rng.choice([0, 30, 3000, 5080])))
        if part == "lyr2":
            return media.lyrics3v2(text(0, rng.choice([0, 30, 9000])))
        if part == "tag":
            return media.id3v1(text(0, 30))
        if part == "fl":
            return b"fLaC"
        if part in ("b1", "b2", "b3", "bl"):
            t = rng.choice([0, 1, 2, 3, 4, 5, 6])
            return media.flac_block(t, media.rb(rng, rng.choice([0, 1, 34, 200, 70000])), part == "bl")
        raise ValueError(part)

    def file(self, layout):
        return b"".join(self.get(p, i == len(layout) - 1) for i, p in enumerate(layout))


def holds(srs, data, what):
    """no piece of the music or stream may be left in the SRS"""
    with open(srs, "rb") as f:
        s = f.read()
    for p in range(256, len(data) - 24, 24):
        if data[p:p + 24] in s:
            if data.count(data[p:p + 24]) == 1:
                check(False, "%s: Clean: the SRS holds music data (of offset %d)", what, p)
            return


def rebuild(srs, main, name, sb, o, res, d, env, rng, what, must):
    argv = [srs, main, "-o", res] + (["-k"] if must and rng.random() < .2 else []) + (["-m"] if rng.random() < .2 else [])
    if must and rng.random() < .2:
        put(os.path.join(res, name), b"older")
        argv.append("-y")
    before = tree_state(o), tree_state(os.path.join(d, "in"))
    r = cli.srs(argv, cwd=d, env=env)
    check(r.code != "hang", "%s does not end", what)
    got = tree_state(res) if os.path.isdir(res) else {}
    check(r.code == 0 or not must, "%s: Complete: rebuilding fails: %s", what, r)
    if r.code == 0:
        same(sorted(got), [name], what + ": files in the output folder")
        check(got[name] == sb, "%s: Sound: the rebuilt file differs from the original", what)
    else:
        check(not got, "%s: failed, but there are files: %s", what, sorted(got))
    check(before == (tree_state(o), tree_state(os.path.join(d, "in"))), "%s: the SRS or an input file changed", what)
    return r


def case_music(case, d):
    b, kind = case["b"], case["kind"]
    rng = random.Random(stable_hash(case))
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    os.makedirs(o)
    parts = Parts(kind, rng)
    parts.clean = "j" in b["src"] + b["main"]
    sb, mb = parts.file(b["src"]), parts.file(b["main"])
    env = {"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}
    ext = "." + kind
    name = rng.choice(["01-artist-title", "ID3", "TAG", "a b", "fLaC", "\u00e9tude"]) + rng.choice([ext, ext, ext.upper()])
    what = "%s %s from %s (spec %s)" % (kind, " ".join(b["src"]), " ".join(b["main"]), b["result"])
    put(os.path.join(i, "s", name), sb)
    srs = os.path.join(o, "x.srs")
    if len(mb) < 14 or len(sb) < 14:
        return {"tiny": 1}
    if rng.random() < .35:
        main = rar_wrap(os.path.join(i, "main"), rng.choice(["x", "cd1\\x", "a b"]) + rng.choice([ext, ext.upper()]), mb, rng)
    else:
        main = os.path.join(i, "main", "x" + rng.choice([ext, ext.upper()]))
        put(main, mb)
    r = cli.srs([os.path.join(i, "s", name), "-o", srs] + (["-b"] if int(stable_hash(case), 16) % 5 == 0 else []), cwd=d, env=env)
    check(r.code != "hang", "%s: creation does not end", what)
    made = r.code == 0 and os.path.isfile(srs)
    check(made or not b["tidy"], "%s: creating the SRS fails: %s", what, r)
    if not made:
        return {"notmade": 1}
    if b["tidy"]:
        check_srs(srs, name, sb, d, {"late": []}, kind)
        music = b"".join(parts.get(p, False) for p in b["src"] if p[0] in "mr" and p[1:].isdigit())
        holds(srs, music, what)
        tags = len(sb) - len(music)
        check(os.path.getsize(srs) <= tags + 256 + 4096, "%s: Clean: the SRS has %d bytes, the tags %d", what, os.path.getsize(srs), tags)
    must = b["promised"]
    r = rebuild(srs, main, name, sb, o, res, d, env, rng, what, must)
    return {("promised_" if must else "other_") + ("ok" if r.code == 0 else "error"): 1}


# -- streams ------------------------------------------------------------------------------------------
WIN = 65536


def offset(cell, rng, R=4):
    """a position in cells -> a byte position with the same place relative to the windows"""
    q, r = divmod(cell, R)
    return q * WIN + [0, rng.choice([1, 255, 256, 257, 30000, rng.randrange(1, WIN - 256)]), WIN - 256,
                      WIN - rng.choice([255, 1, 128, rng.randrange(1, 256)])][r]


def case_stream(case, d):
    c = case["b"]["cfg"]
    rng = random.Random(stable_hash(case))
    at = offset(c["at"], rng)
    n = rng.choice([20, 255, rng.randint(20, 255)]) if c["n"] == 1 else 256 if c["n"] == 2 else max(257, offset(c["at"] + c["n"], rng) - at)
    end = at + n
    total = end if c["len"] == c["at"] + c["n"] else max(end + 1, offset(c["len"], rng))
    head = rng.choice([b"\0\0\1\xba", b"\x47\x40\0\x10", b"\0\0\0\0\x47", b"RIFX", b""])
    main = bytearray((head + media.rb(rng, total))[:total])
    if main[0] == 0xff:
        main[0] = 0
    if rng.random() < .5:
        k = rng.choice([4, 8, 14])
        main[at:at + k] = (head + b"\0\0\1\xe0" * 4)[:k]
    if main[at] == 0xff:
        main[at] = 0
    sample = bytes(main[at:end])
    if c["copy"]:                   # the beginning of the sample, cut short
        p = offset(c["copy"] - 1, rng)
        k = min(rng.choice([255, 100, 14]), n - 1)
        if p + k <= at or (p >= end and p + k <= total):
            main[p:p + k] = sample[:k]
    main = bytes(main)
    if main.find(sample[:256]) != at:
        return {"ambiguous": 1}
    i, o, res = (os.path.join(d, x) for x in ("in", "srs", "out"))
    os.makedirs(o)
    ext = rng.choice([".vob", ".ts", ".m2ts", ".mpg", ".mpeg", ".m2v", ".m2p", ".VOB"])
    name = rng.choice(["smp", "a b", "\u00e4"]) + ext
    put(os.path.join(i, "s", name), sample)
    if rng.random() < .3:
        big = rar_wrap(os.path.join(i, "main"), "x" + ext, main, rng, extra=False)
    else:
        big = os.path.join(i, "main", "x" + rng.choice([ext, ext, ".bin"]))
        put(big, main)
    srs = os.path.join(o, "x.srs")
    what = "stream of %d bytes at %d of %d" % (n, at, total)
    argv = [os.path.join(i, "s", name), "-o", srs] + (["-b"] if int(stable_hash(case), 16) % 5 == 0 else [])
    stored = rng.random() < .4
    if stored:
        argv += ["-c", big]
    r = cli.srs(argv, cwd=d)
    check(r.code == 0 and os.path.isfile(srs), "%s: creating the SRS%s fails: %s", what, " with -c" if stored else "", r)
    check_srs(srs, name, sample, d, {"late": []}, "stream")
    holds(srs, sample, what)
    r = rebuild(srs, big, name, sample, o, res, d, {}, rng, what, True)
    # in another file it is not there
    put(os.path.join(i, "other" + ext), main[:at] + b"\1" + main[at + 1:])
    r = cli.srs([srs, os.path.join(i, "other" + ext), "-o", os.path.join(d, "o2")], cwd=d)
    check(r.code != 0 and not (os.path.isdir(os.path.join(d, "o2")) and os.listdir(os.path.join(d, "o2"))),
          "%s: a file without it is accepted: %s", what, r)
    return {"stored" if stored else "search": 1}


PARTS = {"music": case_music, "stream": case_stream}


def layouts(pres, musics, posts):
    return [tuple(a) + tuple(m) + tuple(p) for a in pres for m in musics for p in posts]


def run(ctx):
    q = ctx.quick
    tags = ["ape1", "ape2", "lyr1", "lyr2", "tag"]
    perms = lambda n: [p for k in range(n + 1) for p in itertools.permutations(tags, k)]
    tidy = [p for k in range(5) for p in itertools.combinations(tags, k) if not ("ape1" in p and "ape2" in p)]
    pre, odd = [(), ("id3",), ("id3", "id3")], [("j",), ("id3", "j"), ("id3", "j", "id3"), ("j", "id3"), ("id3", "id3", "j")]
    two, others = [("m1", "m2")], [("m1",), ("m1", "m2", "m3"), ("m9", "m2"), ("m3", "m1", "m2"), ("m1", "m1", "m2")]
    sets = [("mp3", layouts(pre, two, tidy), layouts(pre + odd, two, tidy if not q else tidy[::3]), 500 if q else 12000),
            ("mp3", layouts(pre[:2], [("r1",), ("m1",)], tidy[::2]), layouts(pre[:2] + odd, [("r1",), ("r1", "m2"), ("m1",), ("m1", "m2")], tidy[::4]),
             150 if q else 4000),
            ("mp3", layouts(pre + odd[:3], two, perms(1 if q else 3)), layouts(pre + odd, two + others, [(), ("tag",), ("lyr1", "tag"), ("tag", "ape2")]),
             150 if q else 6000)]
    fpre, blocks = [(), ("id3",)], [(), ("b1",), ("b1", "b2")]
    fl = lambda pres, bl, mus, post: [tuple(a) + ("fl",) + b + ("bl",) + m + p for a in pres for b in bl for m in mus for p in post]
    sets.append(("flac", fl(fpre, blocks, [("m1", "m2"), ("m1",)], [(), ("tag",), ("j",)]),
                 fl(fpre + [("id3", "id3")], [(), ("b3",), ("b1", "b3")], two + others[:3], [(), ("tag",), ("j",)]), 250 if q else 5000))
    cases = []
    for kind, s, m, n in sets:
        r = ctx.tlc("Music", constants=dict(Kind=kind, Sources=Set(s), Mains=Set(m), Broken="none"), constraint="Emit", invariants=MINVS, timeout=850)
        yes = [b for b in r.behaviours if b["promised"]]
        no = [b for b in r.behaviours if not b["promised"]]
        cases += [{"b": b, "kind": kind} for b in ctx.sample(yes, n * 3 // 4) + ctx.sample(no, n // 4)]
    small = dict(Sources=Set(layouts(pre, two, tidy[::5])), Mains=Set(layouts(pre + odd, two, tidy[::9])))
    ctx.tlc("Music", constants=dict(small, Kind="mp3", Broken="none"), invariants=MINVS, properties=["Ends"])
    for broken in ("nolyr2", "keepmusic"):
        if ctx.tlc("Music", constants=dict(small, Kind="mp3", Broken=broken), invariants=MINVS, expect_fail=True).accepted:
            raise RuntimeError("Music no longer notices " + broken)
    ctx.replay(case_music, cases, "music", timeout=120)
    r = ctx.tlc("StreamCut", constants=dict(R=4, S=2, MaxLen=11 if not q else 9, Back=2), constraint="Emit", invariants=SINVS)
    ctx.tlc("StreamCut", constants=dict(R=5, S=3, MaxLen=13 if not q else 11, Back=3), invariants=SINVS, properties=["Ends"])
    if ctx.tlc("StreamCut", constants=dict(R=5, S=3, MaxLen=13, Back=1), invariants=SINVS, expect_fail=True).accepted:
        raise RuntimeError("StreamCut no longer notices windows that do not overlap")
    cs = [{"b": b, "n": n} for b in r.behaviours for n in range(1 if q else 6)]
    ctx.replay(case_stream, ctx.sample(cs, 350 if q else 8000), "stream", timeout=120)
    ctx.assumptions += ["tags of a source are where they belong: ID3v2 in front; APE, Lyrics3v1, Lyrics3v2, ID3v1 in this order behind the music",
                        "APEv2 tags have a header; FLAC files differ in ID3 tags and metadata blocks only",
                        "the first 256 bytes of a stream sample occur once in the file it was cut from",
                        "the fpcalc fingerprint program is replaced by a stub"]
