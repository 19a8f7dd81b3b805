"""P08: volume naming.  Whole chains and file lists generated by spec/VolNames.tla are replayed on next_archive, is_rar
and first_rars, and on real volume sets through create_srr and RarStream."""
import io
import os
import random
from . import rarfmt as R
from .core import check, same, stable_hash
from .prop_p13 import put
from .tlc import Set, Fn

BASES = ["grp-movie", "a", "test3", "9", "x.y.z", "movie.rar", "the.part", "grp-cd1", "name.001", "r00", "a b", "\u00e9t\u00e9", "x.part2.sub", "v1.0", "movie.s01", "part", "UP.Per-X", "-", "b.part1.nl"]
AMB = ["pfa-dw.part%02d", "name.Part%d", "x.part%d"]
OTHERS = ["grp.sfv", "grp.nfo", "rar", "file.rar.txt", "cover.r0", "x.cbr", "file.r000", "x.q00", "proof.jpg", "x.01", "x.1234", "a.r0a", "noext", "part1", "x.part1.rev", "set.rar.", "x.s1", "x.{00"]


def cased(name, case):
    return name.upper() if case == "up" else name.title() if case == "title" else name


def case_chain(case, d):
    from rescene import utility as U
    rng = random.Random(stable_hash(case))
    names = ["".join(n) for n in case["names"]]
    sc = case["sc"]
    n = 0
    for base in case["bases"]:
        for cs in ("lower", "up") + (("title",) if sc == "new" else ()):
            vols = [cased(base + x, cs) for x in names]
            olds = [False] if sc == "new" else [True, False] if not (base.endswith("part") and sc == "old") else [True]
            for old in olds:
                prefix = rng.choice(["", "/some/dir.part1.rar/", "rel.r99/"])
                got = prefix + vols[0]
                for want in vols[1:]:
                    last, got = got, U.next_archive(got, old) if old else U.next_archive(got)
                    check(got == prefix + want, "the volume after %s (%s style) is %s, not %s", last, "old" if old else "any", got, prefix + want)
                    n += 1
            for v in vols:
                check(U.is_rar(v) and U.is_rar("/x/" + v), "%s is not taken for a RAR volume", v)
            # the whole set in some order
            mixed = vols[:]
            rng.shuffle(mixed)
            same(list(U.first_rars(iter(mixed))), [vols[0]], "first volumes of %d files of the set %s" % (len(mixed), vols[0]))
            for i in sorted(rng.sample(range(1, len(vols)), min(30, len(vols) - 1))):
                f = list(U.first_rars([vols[i]]))
                # a single file: a .rar is let through
                lenient = sc == "new" or sc == "num0" and i == 1
                check(f == ([vols[i]] if lenient else []), "%s alone: first volumes are %s", vols[i], f)
                rest = vols[i:] if len(vols) - i > 1 else vols[i - 1:]
                if rest[0] != vols[0] and not (sc == "num0" and rest[0] == vols[1]):
                    rest = rest[:]
                    rng.shuffle(rest)
                    same(list(U.first_rars(rest)), [], "first volumes of the set %s from volume %d on" % (vols[0], i + 1))
    return {"steps": n}


def case_ext(case, d):
    """Exactly the names of the schemes are names of RAR volumes."""
    from rescene import utility as U
    legal = set(case["names"])
    syms = "abcdefghijklmnopqrstuvwxyz0123456789"
    n = 0
    for a in case["first"]:
        for b in syms:
            for c in syms:
                ext = "." + a + b + c
                want = ext in legal
                for name in ("f" + ext, ("f" + ext).upper(), "x.rar" + ext):
                    check(U.is_rar(name) == want, "is_rar(%r) is %s", name, not want)
                    n += 1
    for o in OTHERS:
        check(not U.is_rar(o), "%r is taken for a RAR volume", o)
        try:
            got = U.next_archive(o)
        except AttributeError:
            pass
        else:
            check(False, "next_archive(%r) is %r", o, got)
    return {"names": n}


def case_list(case, d):
    from rescene import utility as U
    import rescene.main as rm
    rng = random.Random(stable_hash(case))
    names = {tuple(k): "".join(v) for k, v in case["names"]}
    bases, cases = {}, {}
    pool = BASES[:]
    rng.shuffle(pool)
    amb = rng.choice(AMB)
    for f in case["files"]:
        b = f[0]
        if b in bases or f[1] == 0:
            continue
        if case["setof"][b] == "amb":
            bases[b] = amb % (2 + len(bases))
        else:
            bases[b] = pool.pop()
        cases[b] = rng.choice(["lower", "lower", "up", "title"])
    oth = dict(zip(sorted({f[0] for f in case["files"] if f[1] == 0}), rng.sample(OTHERS, 2)))

    def name(f):
        if f[1] == 0:
            return oth[f[0]]
        n = names[tuple(f)]
        if case["setof"][f[0]] == "amb":
            return bases[f[0]] + n               # .rar/.r00 in the same case
        return cased(bases[f[0]] + n, cases[f[0]])
    for t in range(case["rounds"]):
        files = [name(f) for f in case["files"]]
        want = [name(f) for f in case["firsts"]]
        if t:
            if rng.random() < .3 and len(files) > 1:
                files.append(rng.choice(files))      # listed twice
            rng.shuffle(files)
            want = [f for f in files if f in want]
        give = rng.choice([list, tuple, iter])(files)
        got = U.first_rars(give)
        same(list(got), want, "first volumes in the list %s" % files)
    # the same list in an SFV
    path = os.path.join(d, "x.sfv")
    put(path, "".join("%s %08x\n" % (f, rng.getrandbits(32)) for f in files).encode("latin-1"))
    import importlib.util
    spec = importlib.util.spec_from_file_location("pyrescene_script", os.path.join(os.environ.get("VERIF_REPO", "/repo"), "bin", "pyrescene.py"))
    try:
        m = SCRIPT[0]
    except IndexError:
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        SCRIPT.append(m)
    same([os.path.relpath(f, d) for f in m.get_start_rar_files([path])], want, "start volumes of an SFV with %s" % files)
    return {"lists": case["rounds"]}


SCRIPT = []


def tiny_set(names, rng, new, files=1):
    """Volumes of one or more stored files split over all of them: [(name, bytes)], {file: bytes}"""
    per = rng.choice([1, 2, 3, 5])
    data = R.pattern("tiny%d" % rng.getrandbits(30), per * len(names))
    import zlib
    out = []
    for i, n in enumerate(names):
        piece = data[i * per:(i + 1) * per]
        last = i == len(names) - 1
        b = R.MARKER + R.main_header(len(names) > 1, new, i == 0, False)
        crc = zlib.crc32(data) if last else zlib.crc32(piece)
        b += R.file_header("movie.avi", len(piece), len(data), crc, i > 0, not last) + piece
        b += R.end_block("plain", not last, i, b"")
        out.append((n, b))
    return out, {"movie.avi": data}


def case_real(case, d):
    """Real volumes: the volumes of the SRR are the chain, and a stream over them is the file."""
    import rescene.main as rm
    from rescene.rarstream import RarStream
    rng = random.Random(stable_hash(case))
    names = [cased(case["base"] + "".join(n), case["cs"]) for n in case["names"]]
    vols, files = tiny_set(names, rng, case["sc"] == "new")
    gap = case["gap"]
    folder = os.path.join(d, "rel")
    for i, (n, b) in enumerate(vols):
        if i + 1 != gap:
            put(os.path.join(folder, n), b)
    for o in ("x.nfo", "other.r00"):
        put(os.path.join(folder, o), b"no RAR")
    have = names[:gap - 1] if gap else names
    first = os.path.join(folder, names[0])
    srr = os.path.join(d, "x.srr")
    rm.create_srr(srr, [first], folder)
    inf = rm.info(srr)
    got = [f.file_name for f in inf["rar_files"].values()]
    check(got == have, "the volumes from %s on: the SRR has %s ... (%d), they are %s ... (%d)", names[0], got[-2:], len(got), have[-2:], len(have))
    same([f.file_size for f in inf["rar_files"].values()], [len(b) for _, b in vols[:len(have)]], "sizes of the volumes")
    want = files["movie.avi"]
    per = len(want) // len(names)
    want = want[:per * len(have)]
    s = RarStream(first)
    got = s.read()
    check(got == want, "the stream over %d volumes from %s has %d bytes, the file %d", len(have), names[0], len(got), len(want))
    s.close()
    if not gap and len(names) > 1:
        bad = os.path.join(folder, names[rng.randrange(1, len(names))])
        if case["sc"] in ("old", "num"):
            try:
                rm.create_srr(os.path.join(d, "y.srr"), [bad], folder)
            except Exception:
                pass
            else:
                check(False, "an SRR is created starting with %s", os.path.basename(bad))
        # by SFV in any order
        lines = [(n, b) for n, b in vols]
        rng.shuffle(lines)
        import zlib
        sfv = os.path.join(folder, "x.sfv")
        put(sfv, "".join("%s %08x\r\n" % (n, zlib.crc32(b)) for n, b in lines).encode("latin-1"))
        rm.create_srr(os.path.join(d, "z.srr"), [sfv], folder)
        got = [f.file_name for f in rm.info(os.path.join(d, "z.srr"))["rar_files"].values()]
        check(got == names, "volumes of the SRR made with the SFV: %s", [(a, b) for a, b in zip(got, names) if a != b][:3])
    return {"volumes": len(names)}


PARTS = {"chain": case_chain, "ext": case_ext, "list": case_list, "real": case_real}
INVS = ["Agree", "Different", "Once"]
NOLIST = dict(Bases=Set([]), SetOf=[], Others=Set([]), MaxLen=0)


def chains(ctx):
    out = {}
    for sc, w in [("old", 0), ("num", 0), ("num0", 0)] + [("new", w) for w in (1, 2, 3, 4)]:
        r = ctx.tlc("VolNames", constants=dict(Mode="chain", Scheme=sc, W=w, Last=0 if w < 4 else 1300 if ctx.quick else 0, **NOLIST), constraint="Emit", invariants=INVS)
        bs = sorted(r.behaviours, key=lambda b: b["i"])
        assert [b["i"] for b in bs] == list(range(1, len(bs) + 1))
        out[sc, w] = [b["n"] for b in bs]
    return out


UNIVERSES = [
    {"A": ["old", 0, 3], "B": ["new", 2, 3], "C": ["num", 0, 2]},
    {"A": ["num0", 0, 3], "B": ["num0", 0, 2], "C": ["num", 0, 3]},
    {"A": ["amb", 0, 3], "B": ["amb", 0, 2], "C": ["new", 1, 3]},
    {"A": ["new", 1, 3], "B": ["new", 3, 3], "C": ["old", 0, 2]},
    {"A": ["old", 0, 2], "B": ["amb", 0, 2], "C": ["num0", 0, 2]},
    {"A": ["new", 4, 12], "B": ["old", 0, 2]},
]


def run(ctx):
    ctx.assumptions = ["base names that do not end in .partN (their volumes in the old style are only recognised when nothing else starts a set: documented)",
                       "numbers within the digits of the scheme (part99 has no successor: documented)", "one letter case per volume set"]
    ch = chains(ctx)
    cases = []
    for (sc, w), names in ch.items():
        cuts = {len(names)}
        cuts |= {2, 3, 11, 12, 101, 102, 103}
        for k in sorted(c for c in cuts if 1 < c <= len(names)):
            pool = BASES if not ctx.quick or k < 400 else ctx.rng.sample(BASES, 5)
            for i in range(0, len(pool), 4):
                cases.append({"sc": sc, "w": w, "names": names[:k], "bases": pool[i:i + 4], "n": k})
    ctx.replay(case_chain, cases, "chain", chunk=4)
    legal = sorted({"".join(n) for k in ("old", "num", "num0") for n in ch[k, 0]})
    ctx.replay(case_ext, [{"first": a, "names": legal} for a in ["abcdefghijklm", "nopq", "rst", "uvw", "xyz", "01234", "56789"]], "ext")
    lists = []
    for u in UNIVERSES:
        consts = dict(Mode="list", Scheme="old", W=0, Last=0, Bases=Set(sorted(u)), SetOf=Fn({b: tuple(v) for b, v in u.items()}), Others=Set(["o1", "o2"]))
        nf = sum(v[2] for v in u.values()) + 2
        a = ctx.tlc("VolNames", constants=dict(consts, MaxLen=3 if ctx.quick or nf > 10 else 4), constraint="Emit", invariants=INVS)
        sim = ctx.tlc("VolNames", constants=dict(consts, MaxLen=nf), constraint="Emit", invariants=INVS,
                      simulate=600 if ctx.quick else 6000, depth=nf + 3, seed=ctx.seed)
        names = [[[b, i], list("".join(volname(v[0], v[1], i, ch)))] for b, v in u.items() for i in range(1, v[2] + 1)]
        for b in ctx.sample(a.behaviours, 250 if ctx.quick else 3000) + ctx.sample(sim.behaviours, 500 if ctx.quick else 5000):
            lists.append({"files": b["list"], "firsts": b["firsts"], "names": [n for n in names if n[0] in b["list"]],
                          "setof": {k: v[0] for k, v in u.items()}, "rounds": 2 if ctx.quick else 4, "n": len(lists) % 7})
    ctx.replay(case_list, lists, "list")
    real = []
    for sc, w, ks in [("old", 0, [1, 2, 102, 103, 205]), ("new", 1, [2, 9]), ("new", 2, [2, 10, 99]), ("new", 3, [11, 100, 101]), ("num", 0, [1, 2, 11, 101]), ("num0", 0, [2, 11, 101]), ("old", 0, [901] if not ctx.quick else [3])]:
        for k in ks:
            for cs in ("lower", "up"):
                for gap in (0, ctx.rng.randrange(2, k + 1) if k > 2 else 0):
                    for base in ctx.rng.sample(BASES + (AMB_OLD if sc == "old" else []), 1 if ctx.quick else 4):
                        real.append({"sc": sc, "names": ch[sc, w][:k], "cs": cs, "gap": gap, "base": base})
    for base in AMB_OLD[:2]:
        real.append({"sc": "old", "names": ch["old", 0][:4], "cs": "lower", "gap": 0, "base": base})
    ctx.replay(case_real, real, "real", chunk=1)


AMB_OLD = ["pfa-dw.part01", "name.Part1"]


def volname(sc, w, i, ch):
    return "".join(ch["old" if sc == "amb" else sc, w if sc == "new" else 0][i - 1])
