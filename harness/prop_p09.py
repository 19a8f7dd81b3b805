"""P09: SFV data.  Documents generated by spec/Sfv.tla are written down in the spellings found in the wild, parsed, sorted,
filtered and compared by the real code, and used as input of create_srr and of the listing."""
import io
import os
import random
import zlib
from . import rarfmt as R
from .core import check, same, stable_hash
from .prop_p13 import put
from .tlc import Set

# names of the files of a set: base -> spelling of the volumes by index
BASES = ["grp-movie", "a", "x y  z", "B", "\u00e9t\u00e9", "\u00a0rbol", "caf\u00a0 x", "\u0085a", "name;x", ";x"[1:] + ";", "a.r0", "test-1", "00000001", "x.part1", "deadbeef", "a#b", "(x)", "[y]", "it's", "a,b", "a=b", "q\u00ff", "r", "s", "t.s00"]
EXTRA = [".nfo", ".txt", ".mkv", ".jpg", ".cue", ""]
EOLS = [b"\n", b"\r\n", b"\r", b"\r\r\n", b"\n\n"]


def volname(sc, base, i, w):
    if sc == "old":
        n = [".rar", ".r00", ".r01", ".r99", ".s00"]
        return base + n[i - 1]
    if sc == "new":
        n = [1, 2, 9, 10, 99]
        return "%s.part%0*d.rar" % (base, w, n[i - 1])
    if sc == "num":
        n = ["001", "002", "009", "010", "100"]
        return base + "." + n[i - 1]
    n = [".nfo", " two.txt", ".mkv", ".txt", "x"]
    return base + n[i - 1]


class Writer(object):
    def __init__(self, rng):
        self.rng = rng
        self.bases = {}
        self.crcs = {}
        self.w = rng.choice([2, 3])
        self.pool = BASES[:]
        rng.shuffle(self.pool)
        self.used = set()

    def name(self, n):
        k = n["set"]
        if k not in self.bases:
            # also the same base in two schemes
            self.bases[k] = self.pool.pop()
        base = self.bases[k]
        s = volname(n["sc"], base, n["i"], self.w)
        return self.swap(s) if n["cs"] else s

    @staticmethod
    def swap(s):
        # letters of the Latin-1 range whose case partner is outside of it stay
        return "".join(c if ord(c) > 126 else c.swapcase() for c in s)

    def crc(self, c):
        v = c["v"]
        if v not in self.crcs:
            while True:
                x = "%08x" % self.rng.choice([self.rng.getrandbits(32) | 0xa0000000, self.rng.getrandbits(16), 0xabcdef, 0, 0xffffffff])
                if x not in self.crcs.values():
                    break
            self.crcs[v] = x
        s = self.crcs[v]
        return s.upper() if c["cs"] else s

    def line(self, l, other):
        """bytes of the line, (name, crc)/text expected"""
        rng = self.rng
        if l["k"] == "blank":
            return rng.choice([b"", b" ", b"\t", b"  \t "]), None
        if l["k"] == "comment":
            t = rng.choice(["; Generated by WIN-SFV32 v1.1a", ";", ";a.rar 12345678", "  ; x", "\t;y", "; \u00e9\u00a0", ";;", "; trailing  "])
            return t.encode("latin-1"), t
        if l["k"] in ("nospace", "badcrc", "longcrc"):
            t = {"nospace": rng.choice(["file.rar", "12345678", "a.rar12345678"]),
                 "badcrc": rng.choice(["a.rar 1234567g", "a.rar 12345-78", "a.rar ------", "a.rar 0x123456", "a b.rar c\u00e9", "a.rar 123456\u00b2\u00b2"]),
                 "longcrc": rng.choice(["a.rar 123456789", "a.rar 00000000ab"])}[l["k"]]
            return t.encode("latin-1"), t
        name, crc = self.name(l["n"]), self.crc(l["c"])
        shown = crc
        if rng.random() < .2:
            shown = crc.lstrip("0") or "0"
        q = name
        if rng.random() < .1 and not other:
            q = '"%s"' % name
        lead = rng.choice(["", "", "", " ", "\t"])
        gap = rng.choice([" ", " ", " ", "  ", "\t", "    ", " \t"])
        trail = rng.choice(["", "", "", " ", "\t", "  "])
        return (lead + q + gap + shown + trail).encode("latin-1"), (name, crc)

    def doc(self, lines):
        rng = self.rng
        eol = rng.choice(EOLS)
        out, want = [], []
        for l in lines:
            b, w = self.line(l, False)
            out.append(b)
            want.append((l["k"], w))
        text = eol.join(out) if rng.random() < .7 else b"".join(b + rng.choice(EOLS[:2]) for b in out)
        if rng.random() < .6:
            text += eol
        return text, want


def plain(name, crc):
    return name.lower(), crc.lower()


def give(U, rng, d, text, tag):
    """One of the ways in."""
    how = rng.randrange(3)
    if how == 0:
        return U.parse_sfv_data(text)
    if how == 1:
        f = io.BytesIO(text)
        f.seek(rng.randrange(0, len(text) + 1))
        return U.parse_sfv_file(f)
    p = os.path.join(d, tag + ".sfv")
    put(p, text)
    return U.parse_sfv_file(p)


def case_doc(case, d):
    from rescene import utility as U
    rng = random.Random(stable_hash(case))
    w = Writer(rng)
    b = case["b"]
    t1, want1 = w.doc(b["one"])
    t2, want2 = w.doc(b["two"])
    entries = None
    for text, want, tag in ((t1, want1, "one"), (t2, want2, "two")):
        e, c, x = give(U, rng, d, text, tag)
        same([(i.file_name, i.crc32.lower()) for i in e], [(v[0], v[1].lower()) for k, v in want if k == "entry"], "entries of %r" % text)
        same(list(c), [v for k, v in want if k == "comment"], "comments of %r" % text)
        same(list(x), [v for k, v in want if k in ("nospace", "badcrc", "longcrc")], "errors of %r" % text)
        if entries is None:
            entries = e
    # the order of the volumes, for any order of the lines
    order = [(w.name(n["n"]).lower(), w.crc(n["c"]).lower(), n["n"]) for n in b["order"]]
    pos = {}
    for n, c, r in order:
        pos[n] = (r["set"], r["sc"], r["i"])
    results = []
    for t in range(3):
        give_ = entries[:]
        if t:
            rng.shuffle(give_)
        # all lines
        s = sorted(give_)
        names = [i.file_name.lower() for i in s]
        same(sorted((i.file_name, i.crc32) for i in s), sorted((i.file_name, i.crc32) for i in entries), "entries after sorting")
        for x in range(len(names)):
            for y in range(x + 1, len(names)):
                px, py = pos[names[x]], pos[names[y]]
                check(px[:2] != py[:2] or px[2] <= py[2], "sorted: %s is in front of %s in %s", names[x], names[y], names)
        # without doubles
        f = U.filter_sfv_duplicates(iter(give_) if t == 2 else give_)
        got = [plain(i.file_name, i.crc32) for i in f]
        check(len(set(got)) == len(got) and set(got) == {(n, c) for n, c, _ in order}, "without doubles: %s of %s, specification %s", f, give_, [o[:2] for o in order])
        names = [g[0] for g in got]
        for x in range(len(names)):
            for y in range(x + 1, len(names)):
                px, py = pos[names[x]], pos[names[y]]
                check(px[:2] != py[:2] or px[2] <= py[2], "without doubles: %s is in front of %s in %s", names[x], names[y], names)
        results.append(got)
    check(results[0] == results[1] == results[2], "the result depends on the order of the lines: %s", results)
    # comparing
    for x, y in ((t1, t2), (t2, t1)):
        how = rng.randrange(2)
        p, q = os.path.join(d, "p.sfv"), os.path.join(d, "q.sfv")
        put(p, x)
        put(q, y)
        r = U.same_sfv(io.BytesIO(x), q) if how else U.same_sfv(p, q)
        check(bool(r) == b["same"], "same_sfv(%r, %r) is %s, specification %s", x, y, r, b["same"])
    return {"lines": len(b["one"])}


def case_create(case, d):
    """The volumes of an SRR created from an SFV are those of the SFV, in archive order; what the SFV says about other files is listed."""
    import rescene.main as rm
    rng = random.Random(stable_hash(case))
    w = Writer(rng)
    b = case["b"]
    folder = os.path.join(d, "rel")
    seen = {}
    lines = []
    for l in b["one"]:
        if l["k"] != "entry":
            lines.append(l)
            continue
        n = w.name(l["n"])
        if n.lower() in seen:
            continue
        vol = R.MARKER + R.main_header(True, l["n"]["sc"] == "new", False, False)
        data = R.pattern(n, rng.randrange(1, 40))
        vol += R.file_header("f%d.mkv" % len(seen), len(data), len(data), zlib.crc32(data), False, False) + data + R.end_block("plain", False, 0, b"")
        if l["n"]["sc"] == "file":
            vol = data
        put(os.path.join(folder, n), vol)
        seen[n.lower()] = (n, l["n"], vol)
        w.crcs[l["c"]["v"] + 100 * len(seen)] = "%08x" % zlib.crc32(vol)
        l = dict(l, c={"v": l["c"]["v"] + 100 * len(seen), "cs": l["c"]["cs"]})
        lines.append(l)
    text, want = w.doc(lines)
    sfv = os.path.join(folder, "x.sfv")
    put(sfv, text)
    srr = os.path.join(d, "x.srr")
    vols = [(n, r) for n, r, _ in seen.values() if r["sc"] != "file"]
    rm.create_srr(srr, [sfv], folder)
    inf = rm.info(srr)
    got = [f.file_name for f in inf["rar_files"].values()]
    check(sorted(got) == sorted(n for n, _ in vols), "volumes %s of the SFV %r", got, text)
    for x in range(len(got)):
        for y in range(x + 1, len(got)):
            px, py = seen[got[x].lower()][1], seen[got[y].lower()][1]
            check((px["set"], px["sc"]) != (py["set"], py["sc"]) or px["i"] < py["i"], "%s is in front of %s in the SRR made from %r", got[x], got[y], text)
    same({f.file_name: f.crc32.lower() for f in inf["rar_files"].values()},
         {n: "%08x" % zlib.crc32(v) for n, r, v in seen.values() if r["sc"] != "file"}, "checksums of the volumes listed")
    same(sorted((f.file_name, f.crc32.lower()) for f in inf["sfv_entries"]),
         sorted((n, "%08x" % zlib.crc32(v)) for n, r, v in seen.values() if r["sc"] == "file"), "files of the SFV that are no volumes")
    same(list(inf["sfv_comments"]), [v for k, v in want if k == "comment"] + [v for k, v in want if k in ("nospace", "badcrc", "longcrc")],
         "comments of the SFV and lines not understood")
    return {"volumes": len(got)}


PARTS = {"doc": case_doc, "create": case_create}
INVS = ["Lossless", "Canonical", "Complete"]


def nm(set_, sc, i, cs=0):
    return {"set": set_, "sc": sc, "i": i, "cs": cs}


def run(ctx):
    ctx.assumptions = ["names without quotes, tabs or blanks at their ends", "the letter case of non-ASCII letters is not varied"]
    cases, create = [], []
    crcs = Set([{"v": 1, "cs": 0}, {"v": 2, "cs": 0}, {"v": 1, "cs": 1}])
    universes = [
        [nm("A", "old", 1), nm("A", "old", 2), nm("A", "old", 1, 1), nm("B", "new", 1), nm("B", "new", 4)],
        [nm("A", "old", 4), nm("A", "old", 5, 1), nm("A", "old", 1), nm("B", "old", 1, 1), nm("B", "old", 2), nm("C", "file", 1)],
        [nm("A", "new", 2), nm("A", "new", 3, 1), nm("B", "num", 1), nm("B", "num", 4, 1), nm("C", "old", 2, 1), nm("C", "old", 1)],
    ]
    others = Set(["comment", "blank", "nospace", "badcrc", "longcrc"])
    for u in universes:
        two = [{"v": 1, "cs": 0}, {"v": 2, "cs": 1}]
        a = ctx.tlc("Sfv", constants=dict(Names=Set(u[:4] if ctx.quick else u), Crcs=Set(two), MaxLines=2, MaxEdits=1, Others=others), constraint="Emit", invariants=INVS)
        sim = ctx.tlc("Sfv", constants=dict(Names=Set(u), Crcs=crcs, MaxLines=9, MaxEdits=3, Others=others), constraint="Emit", invariants=INVS,
                      simulate=2500 if ctx.quick else 30000, depth=16, seed=ctx.seed)
        bs = ctx.sample(a.behaviours, 1500 if ctx.quick else 20000) + ctx.sample(sim.behaviours, 2500 if ctx.quick else 30000)
        for i, b in enumerate(bs):
            cases.append({"b": b, "n": i % 3})
        for b in ctx.sample([b for b in sim.behaviours if len(b["one"]) > 2 and any(l["k"] == "entry" and l["n"]["sc"] != "file" for l in b["one"])], 150 if ctx.quick else 2500):
            create.append({"b": b})
    ctx.replay(case_doc, cases, "doc")
    ctx.replay(case_create, create, "create")
