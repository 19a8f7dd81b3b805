"""P23: the tools that go over whole folders (spec/Batch.tla; bin/srs_batch, srr_extract_srs, srs_bad, srs_size, srr_sort, preprardir)."""
import io
import os
import random
import shutil
import tarfile
import time
import zlib
from . import cli, media, rarfmt as R
from .core import check, same, stable_hash
from .prop_p13 import fpcalc_dir, mp3_audio, put, tree_state, video
from .tlc import Set

INVS = ["EveryEntry", "OnItsOwn", "NothingLost"]
DIRS = ["", "CD1", "Rel-GRP/Sample", "b b"]
_pool = {}


def script(name, argv, cwd, stdin=b"", env=None):
    def fn():
        import runpy
        import sys
        p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "bin", name + ".py")
        sys.path.insert(0, os.path.dirname(p))
        sys.argv = [p] + list(argv)
        runpy.run_path(p, run_name="__main__")
    return cli.run_child(fn, cwd=cwd, stdin=stdin, env=env, timeout=120)


def clip(kind, salt):
    """-> (sample, main)"""
    return video(kind, random.Random("clip%s%d" % (kind, salt)))


def srs_of(kind, salt, checked, d):
    """SRS bytes of a sample (with the offsets in the main video?), and the size of the sample"""
    key = (kind, salt, checked)
    if key not in _pool:
        t = os.path.join(d, "pool")
        if kind == "mp3":
            rng = random.Random(salt)
            s, m = media.id3v2(b"x" * 30) + mp3_audio(rng), b""
        else:
            s, m = clip(kind, salt)
        put(os.path.join(t, "s%d.%s" % (salt, kind)), s)
        put(os.path.join(t, "main." + kind), m)
        r = cli.srs([os.path.join(t, "s%d.%s" % (salt, kind)), "-o", os.path.join(t, "x.srs")] + (["-c", os.path.join(t, "main." + kind)] if checked else []),
                    cwd=d, env={"PATH": fpcalc_dir(t) + ":/usr/bin:/bin"})
        check(r.code == 0, "creating an SRS failed: %s", r)
        with open(os.path.join(t, "x.srs"), "rb") as f:
            _pool[key] = f.read(), len(s)
        shutil.rmtree(t)
    return _pool[key]


def files(tree):
    return {k: v for k, v in tree.items() if not k.endswith("/")}


def case_batch(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    src = os.path.join(d, "in")
    out = src if rng.random() < .25 else os.path.join(d, "out")
    os.makedirs(src)
    plan = []
    for j, e in enumerate(b["es"], 1):
        folder = DIRS[e["d"]]
        kind = rng.choice(["avi", "mkv", "mp4", "wmv"])
        stem = os.path.join(folder, ["v%d", "A b.%d", "s-%d.sample"][j % 3] % j)
        if e["k"] == "other":
            put(os.path.join(src, stem + rng.choice([".txt", ".mp3", ".rar", ".avi.nfo"])), b"text")
        else:
            data = clip(kind, j)[0]
            if e["k"] == "broken":
                data = rng.choice([data[:-rng.choice([1, 40, 300])], media.rb(rng, 600), b""])
            name = stem + "." + rng.choice([kind, kind.upper()])
            put(os.path.join(src, name), data)
            if e["old"]:
                put(os.path.join(out, stem + ".srs"), b"older")
            plan.append((j, stem, name, data))
    before, was = tree_state(src), files(tree_state(out)) if os.path.isdir(out) else {}
    r = script("srs_batch", ["-i", src, "-o", out] + (["-n"] if b["opt"]["no"] else []), d)
    check(r.code == 0, "srs_batch fails: %s", r)
    got, want = files(tree_state(out)), dict(was)
    for j, stem, name, data in plan:
        o = b["res"][j - 1]
        if o == "srs":
            one = os.path.join(d, "one.srs")
            q = cli.srs([os.path.join(src, name), "-o", one, "-y"], cwd=d)
            check(q.code == 0, "srs on %s fails: %s", name, q)
            with open(one, "rb") as f:
                want[stem + ".srs"] = f.read()
        elif o == "error":
            check(got.get(name + ".txt"), "no text with the error of %s", name)
            want[name + ".txt"] = got.get(name + ".txt")
    same(sorted(got), sorted(want), "files in the output folder")
    for n in want:
        check(got[n] == want[n], "%s is not what srs makes of the sample", n)
    if out != src:
        same(tree_state(src), before, "input folder")
    return {o: 1 for o in b["res"]}


def srr(parts):
    return R.srr_header("x") + b"".join(parts)


def case_extract(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    out = os.path.join(d, "out")
    os.makedirs(out)
    parts, want = [], {}
    for j, (e, o) in enumerate(zip(b["es"], b["res"]), 1):
        name = os.path.join(DIRS[e["d"]], (["s%d", "same", "t \u00e9 %d"][rng.randrange(3)]).replace("%d", str(j)))
        name += ".srs" if e["k"] == "srs" else rng.choice([".nfo", ".srs.txt", ".sfv"])
        if name in want or name in [p[0] for p in parts]:
            name = name.replace("same", "same%d" % j)
        data = R.pattern("x%d%d" % (j, rng.randrange(99)), rng.choice([0, 1, 700]))
        parts.append((name, data))
        if o == "written":
            want[name] = data
    p = os.path.join(d, "r.srr")
    put(p, srr([R.srr_stored(n, x) for n, x in parts]))
    r = script("srr_extract_srs", [p, out], d)
    check(r.code == 0, "srr_extract_srs fails: %s", r)
    got = files(tree_state(out))
    same(sorted(got), sorted(want), "extracted files")
    check(got == want, "an extracted SRS differs from the stored one")
    return {"files": len(want)}


def case_bad(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    root = os.path.join(d, "in")
    by = {}
    twin = rng.random() < .5
    for j, (e, o) in enumerate(zip(b["es"], b["res"]), 1):
        have = by.setdefault(e["srr"], {})
        stem = "smp" if twin else "smp%d" % j
        kind = rng.choice(["avi", "mkv", "mp4", "wmv"])
        if e["k"] in ("checked", "unchecked"):
            name, data = stem + ".srs", srs_of(kind, j % 2, e["k"] == "checked", d)[0]
        elif e["k"] == "music":
            name, data = stem + ".srs", srs_of("mp3", j % 2, False, d)[0]
        elif e["k"] == "errortext":
            name, data = "%s.%s.txt" % (stem, rng.choice(["mp3", "flac", kind])), b"error"
        else:
            name, data = rng.choice(["n%d.nfo", "n%d.txt", "n%d.sfv"]) % j, b""
        full = os.path.join(DIRS[e["d"]], name)
        while full in have:
            full = os.path.join(DIRS[e["d"]], "x" + os.path.basename(full))
        have[full] = data, o == "listed", e["k"]
    want = {}
    for k, have in by.items():
        p = os.path.join(root, "dir%d" % k, "rel-%d.srr" % k) if k > 1 else os.path.join(root, "rel-%d.SRR" % k)
        put(p, srr([R.srr_stored(n, x[0]) for n, x in have.items()]))
        names = {n if x[2] == "errortext" else os.path.basename(n) for n, x in have.items() if x[1]}
        if names:
            want[p] = names
    put(os.path.join(root, "other.txt"), b"")
    before = tree_state(root)
    form = rng.choice(["", "-l", "-p"])
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp)
    r = script("srs_bad", [root] + [f for f, x in (("-s", b["opt"]["s"]), ("-t", b["opt"]["t"])) if x] + ([form] if form else []), d, env={"TMPDIR": tmp})
    check(r.code == 0, "srs_bad fails: %s", r)
    lines = [x for x in r.out.splitlines() if x and not x.startswith("Add the")]
    if form == "-l":
        same(sorted(lines), sorted(os.path.basename(p)[:-4] for p in want), "releases listed")
    elif form == "-p":
        same(sorted(lines), sorted(os.path.dirname(p) for p in want), "folders listed")
    else:
        got, cur = {}, None
        for x in lines:
            if x.startswith("-> "):
                got[cur].add(x[3:])
            else:
                cur = x
                got[cur] = set()
        same(got, want, "samples listed")
    same(tree_state(root), before, "folder with SRRs")
    same(os.listdir(tmp), [], "temporary files left behind")
    return {"listed": len(want)}


def case_size(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    root = os.path.join(d, "in")
    os.makedirs(root)
    # abstract sizes 0..2 are less than, equal to and more than the size asked for
    kind = rng.choice(["avi", "mkv", "mp4", "wmv"])
    sizes = sorted({srs_of(kind, s, False, d)[1]: s for s in range(4)}.items())
    if len(sizes) < 3:
        return {"same": 1}
    want = []
    for j, (e, o) in enumerate(zip(b["es"], b["res"]), 1):
        p = os.path.join(root, DIRS[e["d"]], "s%d%s" % (j, rng.choice([".srs", ".SRS"]) if e["k"] == "srs" else ".txt"))
        data, n = srs_of(kind, sizes[e["size"]][1], False, d)
        put(p, data)
        if o == "listed":
            want.append((p, n))
    r = script("srs_size", [root, "-s", str(sizes[b["opt"]["size"]][0])], d)
    check(r.code == 0, "srs_size fails: %s", r)
    lines = r.out.splitlines()
    got = [(p, int(n.replace(",", "").replace(".", "").replace(" ", ""))) for p, n in zip(lines[::2], lines[1::2])]
    same(sorted(got), sorted(want), "SRS files listed")
    return {"listed": len(want)}


def rng_fix(e):
    return (".DiRFiX" if e["name"] == "a" else ".NFOFiX") if e["fix"] else ""


def case_sort(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    argv, want, names, total = [], {}, [], 0
    out = os.path.join(d, "out")
    for j, (e, o) in enumerate(zip(b["es"], b["res"]), 1):
        parts = []
        for k in range(e["nfos"]):
            parts.append(R.srr_stored(["a.nfo", "CD1/b.NFO", "c c.nfo"][k], b"nfo"))
        if e["img"] != "none":
            ext = rng.choice([".jpg", ".png", ".bmp", ".gif", ".jpeg"])
            parts.append(R.srr_stored({"proof": rng.choice(["Proof/x%s", "rel.proof%s", "PROOF%s"]), "other": rng.choice(["Cover/x%s", "x%s"])}[e["img"]] % ext, b"img"))
        if e["sfv"]:
            parts.append(R.srr_stored(rng.choice(["rel.sfv", "CD1/R.SFV"]), b""))
        if e["txt"]:
            parts.append(R.srr_stored(rng.choice(["t.txt", "d/T.TXT"]), b"t"))
        if e["dup"] == "same":
            n = rng.choice(["same.dat", "d/same.dat"])
            parts += [R.srr_stored(n, b"1"), R.srr_stored(n, b"2")]
        elif e["dup"] == "near":
            parts += [R.srr_stored("near.dat", b"1"), R.srr_stored("d/near.dat", b"1"), R.srr_stored("e/near.dat", b"1")]
        rng.shuffle(parts)
        if e["rar"] != "none":
            nm = {"plain": "grp-rel", "repack": rng.choice(["grp-rpk", "grp.repack", "grp-r"]), "upper": "GRP-Rel"}[e["vol"]]
            for st in range(e["sets"]):
                style = rng.choice(["old", "new", "New"] if e["vol"] == "plain" else ["old"])
                for k in range(rng.choice([1, 2, 3])):
                    base = nm if e["sets"] == 1 or e["vol"] == "repack" else nm + "-cd%d" % (st + 1)
                    if e["sets"] > 1 and e["vol"] == "repack":
                        base = "cd%d-" % (st + 1) + nm
                    vol = base + ((".rar" if k == 0 else ".%s%02d" % ("r", k - 1)) if style == "old" else (".part%d.rar" if style == "new" else ".part%02d.rar") % (k + 1))
                    n = rng.choice([0, 10, 100000])
                    blocks = R.MARKER + R.main_header(True, False, False, False)
                    here = 1 if k or st else e["files"] - (e["sets"] - 1)     # the first set has all but one of each other set
                    for h in range(here):       # the last file of a volume goes on in the next one
                        nr = here - 1 - h if k == 0 else 0
                        blocks += R.file_header("f%d-%d.mkv" % (st, nr), n, n * 3, 1, k > 0, nr == 0, method=0x33 if e["rar"] == "comp" else 0x30)
                        total += n
                    blocks += R.end_block("plain", True, 0, b"")
                    parts.append(R.srr_rar(vol) + blocks)
                    total += len(blocks)
        data = srr(parts) + (R.srr_padding(b"\0" * 20) if not parts else b"")
        folder = os.path.join(d, "in%d" % j)
        p = os.path.join(folder, "Rel%s%s.srr" % (rng_fix(e), {"Upper": "-%sGRP", "lower": "-%sgrp", "none": ".x264.%s"}[e["grp"]] % e["name"]))
        put(p, data)
        if rng.random() < .4:
            put(os.path.join(folder, "other.txt"), b"x")
        argv.append(rng.choice([p, folder]))
        want["out/" + os.path.basename(p) if o == "moved" else os.path.relpath(p, d)] = data
        if b["fix"][j - 1]:
            names.append(os.path.basename(p))
        if o != "nothing":
            names.append(os.path.basename(p))
    verify = rng.random() < .3
    r = script("srr_sort", argv + sorted(b["opt"]["flags"]) + (["-o", out] if b["opt"]["move"] else []) + (["-v"] if verify else []), d)
    check(r.code == 0, "srr_sort fails: %s", r)
    check("Something wrong" not in r.out, "srr_sort could not read an SRR: %s", r.out)
    got = {k: v for k, v in files(tree_state(d)).items() if k.endswith(".srr")}
    same(sorted(got), sorted(want), "where the SRRs are (%s)" % sorted(b["opt"]["flags"]))
    check(got == want, "an SRR changed")
    same([os.path.basename(x) for x in r.out.splitlines() if x.endswith(".srr") and not x.startswith(("Moving", "Not moving"))], names,
         "SRRs listed for %s" % sorted(b["opt"]["flags"]))
    if verify and total:
        check("%d bytes" % total in r.out.splitlines(), "total size: %d expected, output %s", total, r.out)
    return {o: 1 for o in b["res"]}


def dos(t):
    y, m, dd, h, mi, s = t[:6]
    return ((y - 1980) << 25) | (m << 21) | (dd << 16) | (h << 11) | (mi << 5) | (s // 2)


def case_rarbin(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    src, out = os.path.join(d, "in"), os.path.join(d, "out")
    os.makedirs(src)
    if rng.random() < .5:
        os.makedirs(out)
    want = {}
    for j, (e, o) in enumerate(zip(b["es"], b["res"]), 1):
        form = rng.choice(["wrar", "x64", "sfx", "tgz", "tgz64"] if shutil.which("unrar") else ["tgz", "tgz64"])
        t = (rng.choice([1999, 2005, 2013]), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(0, 60, 2))
        data = R.pattern("exe%d" % j, rng.choice([1, 300, 5000]))
        one = rng.random() < .3                    # 5.1 is 5.10
        small = str(j) if one else "%d%d" % (rng.randrange(10), j)
        full = small + "0" if one else small
        beta = "b%d" % j if e["beta"] else ""
        if e["k"] == "other":
            put(os.path.join(src, rng.choice(["readme%d.txt", "setup-%d.exe", "whatsnew%d", "notrar%d50.zip"]) % j), b"MZ" + R.pattern("o", 500))
            continue
        if form in ("tgz", "tgz64"):
            ver = "%d.%s" % (e["major"], small if one else small[0] + "." + small[1])
            name = "rar%s-%s%s%s.tar.gz" % (rng.choice(["linux", "osx", "bsd"]), "x64-" if form == "tgz64" else "", ver, "." + beta if beta else "")
            mt = int(time.mktime(t + (0, 0, 0)))       # TZ is UTC here
            with tarfile.open(os.path.join(src, name), "w:gz") as tf:
                for n, x in rng.sample([("rar/readme.txt", b"hi"), ("rar/rar", data), ("rar/unrar", b"no"), ("rar/default.sfx", b"MZ")], 4):
                    ti = tarfile.TarInfo(n)
                    ti.size, ti.mtime, ti.mode = len(x), mt if n == "rar/rar" else 5 * 10 ** 8, 0o755
                    tf.addfile(ti, io.BytesIO(x))
        else:
            inner = {"sfx": ["rar\\rar", "rar"]}.get(form, ["Rar.exe", "Rar.Exe"])
            name = {"wrar": "wrar%d%s%s.exe", "x64": "winrar-x64-%d%s%s.exe", "sfx": "rarln%d%s%s.sfx"}[form] % (e["major"], small, beta)
            blocks = R.MARKER + R.main_header(False, True, False, False)
            fl = [("License.txt", b"words", (1999, 1, 2, 0, 0, 0)), (rng.choice(inner), data, t), ("UnRAR.exe", b"no", (1998, 2, 3, 0, 0, 0))]
            rng.shuffle(fl)
            for n, x, ft in fl:
                blocks += R.file_header(n, len(x), len(x), zlib.crc32(x), ftime=dos(ft)) + x
            put(os.path.join(src, name), b"MZ" + bytes(rng.randrange(1, 80) for _ in range(rng.choice([20, 3000, 70000]))) + blocks + R.end_block("plain", False, 0, b""))
        if o == "made":
            new = "%04d-%02d-%02d_rar%d%s%s" % (t[0], t[1], t[2], e["major"], full, beta)
            want[new + (".exe" if form in ("wrar", "x64") else "")] = data
    before = tree_state(src)
    home = os.path.join(d, "home")
    os.makedirs(home)
    r = script("preprardir", [src, out] + (["-b"] if b["opt"]["beta"] else []), d, env={"HOME": home})
    check(r.code == 0, "preprardir fails: %s", r)
    got = tree_state(out)
    same(sorted(got), sorted(want), "executables in the folder")
    check(got == want, "an executable differs from the one in the installer")
    same(tree_state(src), before, "folder with installers")
    return {"made": len(want)}


PARTS = {"batch": case_batch, "extract": case_extract, "bad": case_bad, "size": case_size, "sort": case_sort, "rarbin": case_rarbin}
FLAGS = ["-c", "-e", "-i", "-p", "-t", "-n", "-u", "-s", "--txt", "-r", "-2", "-f", "-m", "-l", "-d"]


def run(ctx):
    q = ctx.quick
    rng = ctx.rng
    B = [False, True]
    dirs = range(len(DIRS))
    flags = [[f] for f in FLAGS] + [list(x) for x in rng.sample([(f, g) for f in FLAGS for g in FLAGS if f < g and {f, g} != {"-i", "-p"}], 12)]
    srrs = [dict(rar=r, sets=c, files=a, grp=g, fix=z, vol=v, img=i, nfos=n, dup=u, sfv=s, txt=t, name=x) for r in ("none", "store", "comp") for v in ("plain", "repack", "upper")
            for i in ("none", "proof", "other") for n in (0, 1, 2, 3) for u in ("no", "same", "near") for s in B for t in B for x in "ab"
            for c in (0, 1, 2) for a in (0, 1, 2, 3) if a >= c for g in ("Upper", "lower", "none") for z in B
            if (r != "none" or v == "plain") and (r == "none") == (c == 0) == (a == 0)]
    srrs = rng.sample(srrs, 3000)
    plan = {
        "batch": ([dict(k=k, d=x, old=o) for k in ("video", "broken", "other") for x in dirs for o in B if k != "other" or not o], [dict(no=o) for o in B], 5, 120),
        "extract": ([dict(k=k, d=x) for k in ("srs", "other") for x in dirs], [dict(x=1)], 5, 120),
        "bad": ([dict(k=k, d=x, srr=s) for k in ("checked", "unchecked", "music", "errortext", "other") for x in (0, 1, 2) for s in (1, 2)],
                [dict(s=s, t=t) for s in B for t in B], 6, 150),
        "size": ([dict(k=k, d=x, size=s) for k in ("srs", "other") for x in dirs for s in (0, 1, 2)], [dict(size=s) for s in (0, 1, 2)], 5, 60),
        "sort": (srrs, [dict(flags=f, move=m) for f in map(set, flags) for m in B], 4, 400),
        "rarbin": ([dict(k=k, major=m, beta=x) for k in ("rar", "other") for m in (1, 2, 3, 5) for x in B if k == "rar" or m == 2 and not x], [dict(beta=x) for x in B], 6, 150),
    }
    for tool, (entries, options, most, n) in plan.items():
        small = len(entries) * len(options) < 300
        cases = []
        if small:
            r = ctx.tlc("Batch", constants=dict(Tool=tool, Entries=Set(entries), Options=Set(options), MaxEntries=2), constraint="Emit", invariants=INVS)
            cases += ctx.sample(r.behaviours, n if q else n * 8)
        r = ctx.tlc("Batch", constants=dict(Tool=tool, Entries=Set(entries), Options=Set(options), MaxEntries=most), constraint="Emit", invariants=INVS,
                    simulate=max(5, n // 6) if q else n * 2, depth=most * 2 + 4)
        cases += ctx.sample([x for x in r.behaviours if len(x["es"]) > (2 if small else 0)], n if q else n * 8)
        ctx.replay(PARTS[tool], [{"b": x} for x in cases], tool, timeout=120)
    ctx.assumptions += ["samples in one folder have different names without their extensions", "an installer holds one RAR executable"]
