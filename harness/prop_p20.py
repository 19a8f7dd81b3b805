"""P20: the automatic scan of release directories.  Releases generated by spec/Release.tla are made on disk and given
to bin/pyrescene.py; what is stored, in which order, the volumes, and what is left on disk are compared."""
import importlib.util
import io
import os
import random
import struct
import time
import zlib
from . import rarfmt as R, cli, media, srrmodel as M
from .core import answer, check, same, stable_hash
from .prop_p12 import any_srs, music
from .prop_p13 import put, fpcalc_dir, tree_state
from .tlc import Set, Raw

INVS = ["Once", "Answered", "Sfvs", "Kept", "NoOthers", "Excluded", "NothingMade", "Proofs", "OwnSfv"]
RELS = {"plain": "Some.Movie.2001.DVDRip.XviD-GRP", "fix": "Some.Movie.2001.SFVFiX.DVDRip.XviD-GRP", "subpack": "Some.Movie.2001.SUBPACK.DVDRip.XviD-GRP"}


def any_order(rng):
    """File systems list folders in any order."""
    walk, listdir = os.walk, os.listdir

    def shuffled_walk(top, topdown=True, *a, **k):
        for root, dirs, files in walk(top, topdown, *a, **k):
            rng.shuffle(dirs)
            rng.shuffle(files)
            yield root, dirs, files

    def shuffled_listdir(*a, **k):
        x = listdir(*a, **k)
        rng.shuffle(x)
        return x
    os.walk, os.listdir = shuffled_walk, shuffled_listdir


def tool(argv, cwd, env=None, stdin=b"", timeout=120, script="pyrescene", order=None):
    def fn():
        import sys
        if order is not None:
            any_order(random.Random(order))
        p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "bin", script + ".py")
        sys.path.insert(0, os.path.dirname(p))
        spec = importlib.util.spec_from_file_location(script + "_script", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m.main(argv)
    return cli.run_child(fn, cwd=cwd, env=env, stdin=stdin, timeout=timeout)


def jpeg(w, h, rng, dqt):
    head = b"\xff\xd8" + (b"\xff\xdb\x00\x43\x00" + bytes(64) if dqt else b"\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00")
    return head + b"\xff\xc0\x00\x11\x08" + struct.pack(">HH", h, w) + b"\x03" + media.rb(rng, 9) + b"\xff\xd9"


def volumes(base, names, rng, n, files, naming, comp=False):
    """Volumes [(name, bytes, blocks kept)] holding the files [(name, data)], cut into n pieces."""
    data = [(f, x) for f, x in files]
    total = sum(len(x) for _, x in data)
    limit = -(-total // n) if n > 1 else total
    vols, cur, room = [], [], limit
    for f, x in data:
        pos, first = 0, True
        while first or pos < len(x):
            first = False
            if room == 0 and len(vols) < n - 1:
                vols.append(cur)
                cur, room = [], limit
            k = min(len(x) - pos, room) if len(vols) < n - 1 else len(x) - pos
            cur.append((f, x, pos, k))
            pos += k
            room -= k
    vols.append(cur)
    while len(vols) < n:
        vols.append([])
    out = []
    for i, pieces in enumerate(vols):
        kept = [R.MARKER, R.main_header(n > 1, naming == "new", i == 0 and n > 1)]
        b = b"".join(kept)
        for f, x, pos, k in pieces:
            piece = x[pos:pos + k]
            last = pos + k == len(x)
            h = R.file_header(f, k, len(x), zlib.crc32(x) if last else zlib.crc32(piece), pos > 0, not last, method=0x33 if comp else 0x30)
            kept.append(h)
            b += h + piece
        e = R.end_block("plain", i < n - 1, i, b"")
        kept.append(e)
        out.append((names[i], b + e, b"".join(kept)))
    return out


def volnames(base, n, rng, naming):
    if naming == "new" and n > 1:
        return ["%s.part%0*d.rar" % (base, len(str(n)), i + 1) for i in range(n)]
    return [base + ".rar"] + ["%s.r%02d" % (base, i) for i in range(n - 1)]


def sfv(files, rng, comments=True):
    out = b"; made by someone\r\n" if comments and rng.random() < .5 else b""
    for n, x in files:
        out += n.encode() + b" " + b"%08x" % zlib.crc32(x) + b"\r\n"
    return out


ZEROS = ["00-", "00_", "01-", "01_", "000-", "000_", "001-", "001_", "0000-", "0000_", "0001-", "0001_"]
DISCS = ("disc1", "disc2", "disccrc")            # tracks of the same name


class Release(object):
    """files on disk, and for (item, as): the stored name and the check of its data"""
    def __init__(self, case, d):
        b = case["b"]
        self.rng = rng = random.Random(stable_hash([case["seed"], "rel"]))
        self.b, self.opt, self.items = b, b["opt"], set(b["items"])
        self.d = d
        self.samecd = rng.random() < .4               # volumes and SFVs of the discs have the same names
        self.parent = os.path.join(d, case.get("parent") or rng.choice(["in", "in", "Samples", "proofs", "cover/x", "Screenshots", "a-GRP.sample"]))
        self.rel = os.path.join(self.parent, RELS[b["name"]])
        os.makedirs(self.rel)
        self.files = {}                               # relative name: data
        self.names = {}                               # (item, as): stored name
        self.sets = {}                                # item: volumes
        self.nested = {}                              # item: inner volumes and language lines
        self.kind = rng.choice(["avi", "mkv", "mp4", "wmv"])
        self.tools = {"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}
        self.main = None
        for i in sorted(self.items, key=lambda i: (i not in ("smp",), i)):
            self.item(i)
        if "music" in b and any(i in self.items for i in ("mp3", "mp3b", "flac", "mp3crc", "mp3bad")):
            lines = []
            for i in sorted(self.items):
                if i in ("mp3", "mp3b", "flac", "mp3crc", "mp3bad"):
                    n = self.names[i, "file"]
                    x = self.files[n]
                    lines.append(n.encode() + b" " + b"%08X" % (zlib.crc32(x) ^ (0x10 if i == "mp3crc" else 0)))
            n = rng.choice(ZEROS) + "some.movie-2001-grp.sfv"
            self.files[n] = b"\r\n".join(lines) + b"\r\n"
            self.names["music", "sfv"] = n
        zeros = rng.choice(ZEROS)
        for i in sorted(self.items & set(DISCS)):
            n = self.names[i, "file"]
            folder, name = n.split("/")
            x = zlib.crc32(self.files[n]) ^ (0x10 if i == "disccrc" else 0)
            n = "%s/%ssome.movie-2001-grp-%s.sfv" % (folder, zeros if self.samecd else rng.choice(ZEROS), "cd" if self.samecd else folder.lower())
            self.files[n] = name.encode() + b" %08x\r\n" % x
            self.names[i, "sfv"] = n
        for n, x in self.files.items():
            put(os.path.join(self.rel, n), x)

    def video(self, kind):
        w = os.path.join(self.d, "w%d" % self.rng.getrandbits(40))
        os.makedirs(os.path.join(w, "o"))
        srs, name, main, sample = any_srs(kind, os.path.join(w, "i"), os.path.join(w, "o"), self.rng, self.d)
        with open(main, "rb") as f:
            m = f.read()
        with open(srs, "rb") as f:
            s = f.read()
        cli_rm(w)
        return sample, m, s

    def add(self, i, name, data, kinds=("file",)):
        check(name not in self.files, "harness: %s twice", name)
        self.files[name] = data
        self.names[i, "file"] = name
        return name

    def volset(self, i, folder, base, inner, single=False, naming=None, named=None):
        rng = self.rng
        n = 1 if single else rng.choice([1, 2, 3])
        naming = naming or rng.choice(["old", "new"])
        vols = volumes(base, volnames(base, n, rng, naming), rng, n, inner, naming, comp=i in ("main", "cd1", "cd2") and self.opt["broken"] == "packed")
        pre = folder + "/" if folder else ""
        broken = self.opt["broken"] if i in ("main", "cd1", "cd2") and not self.broken_done else ""
        hit = -1 if broken == "packed" else rng.randrange(len(vols))
        for k, (name, x, kept) in enumerate(vols):
            data = x
            if broken and k == hit:
                self.broken_done = True
                if broken == "missing":
                    continue
                data = b"" if broken == "zero" else x[:-8] if len(x) > 40 else x[:10]
            self.files[pre + name] = data
        s = pre + (named or base) + ".sfv"
        lines = [(name, x) for name, x, _ in vols]
        if rng.random() < .3:
            lines.reverse()
        self.files[s] = sfv(lines, rng)
        self.names[i, "sfv"] = s
        self.names[i, "file"] = pre + vols[0][0]
        self.sets[i] = [(pre + name, kept) for name, _, kept in vols]
        return vols

    broken_done = False

    def item(self, i):
        rng = self.rng
        small = lambda: media.rb(rng, rng.choice([1, 30, 3000]))
        big = lambda: media.rb(rng, 100001)
        if i == "nfo":
            return self.add(i, rng.choice(["Some.Movie-grp.nfo", "some.movie-grp.nfo", "some.movie-grp.NFO"]), small())
        simple = {"nfocd": ("CD1/disc one.nfo", small), "imdb": (rng.choice(["imdb.nfo", "tvmaze.nfo", "IMDB.nfo"]), small), "nonfo": ("no.nfo", lambda: b"no nfo!!"),
                  "m3u": ("some.movie-grp.m3u", small), "jpgproof": ("Proof/x.jpg", small), "pngcover": (rng.choice(["Cover", "Covers", "COVERS"]) + "/front.png", small),
                  "gifshots": ("Screenshots/a b.gif", small), "jpegcmp": ("Compare/c.jpeg", small), "bmpsample": ("Sample/y.BMP", small),
                  "proofroot": ("the.proof.jpg", small), "zeros": (rng.choice(["00-", "000-", "01_", "001-"]) + "cover.jpg", small), "zerosone": ("Extra/00-back.png", small),
                  "small": ("some.movie-grp-small.jpg", small), "like": ("some.movie-like.jpg", big), "likecap": ("Some.Movie-cap.PNG", big), "group": (rng.choice(["the_front-grp.jpg", "The_Front-GRP.jpg"]), big),
                  "other": ("unrelated.thing-else.jpg", big), "space": ("some.movie grp.jpg", big), "folder": (rng.choice(["Folder.jpg", "folder.png"]), big),
                  "albumart": (rng.choice(["AlbumArtSmall.jpg", "AlbumArt_{7E518F75}_Large.jpg"]), big), "spaceproof": ("Proof/with a space.jpg", small),
                  "log": ("some.movie-grp.log", small), "logcd": ("CD1/rip.LOG", small), "rushchk": (rng.choice(["rushchk.log", ".upchk.log", "ufxpcrc.log", "Rushchk.log"]), small), "hidlog": (".hidden.log", small),
                  "cue": ("some.movie-grp.cue", small), "video": ("movie.mkv", small), "txt": ("readme.txt", small), "exe": ("Extra/tool.exe", small), "diz": ("file_id.diz", small)}
        if i in simple:
            n, f = simple[i]
            if i == "zeros" and "zerosone" in self.items:
                n = "00-cover.jpg"
            return self.add(i, n, f())
        if i in ("poster", "posterpng"):
            if i == "poster":
                x = jpeg(630, 1200, rng, rng.random() < .5)
                return self.add(i, "some.movie-poster.jpg", x + bytes(100001 - len(x) % 7))
            x = b"\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR" + struct.pack(">II", 630, 1200)
            return self.add(i, "some.movie-poster.png", x + bytes(100001))
        if i in ("proofrar", "prooftxt", "otherrar"):
            inner = [("p.jpg" if i != "prooftxt" else "p.txt", small())]
            v = volumes("p", ["p.rar"], rng, 1, inner, "old")
            return self.add(i, {"proofrar": "Proof/pf.rar", "prooftxt": "Proof/pt.rar", "otherrar": "Extra/ot.rar"}[i], v[0][1])
        if i == "proofsfv":
            self.volset(i, rng.choice(["Proof", "proofs"]), "ps", [("q.PNG", small())], single=True)
            return
        if i in ("smp", "smp2", "twin", "bad", "badtwin", "zero", "vob", "rarvob", "vobzero", "rootsmp", "mvideo"):
            return self.sample(i)
        if i in ("srs", "srsboth"):
            return self.add(i, "Sample/alone.srs" if i == "srs" else "Sample/smp.sample.srs", self.video("avi")[2])
        if i in ("main", "cd1", "cd2"):
            if self.main is None:
                self.main = media.rb(rng, rng.choice([10, 500, 4000]))
            inner = [(rng.choice(["movie.avi", "movie.mkv", "dir\\movie.iso"]), self.main)] if i != "cd2" else [("two.avi", media.rb(rng, 300))]
            if rng.random() < .2:
                inner.append(("more.txt", media.rb(rng, 20)))
            folder = {"main": "", "cd1": "CD1", "cd2": rng.choice(["CD2", "cd2"])}[i]
            self.volset(i, folder, rng.choice(["some.movie-grp", "Some.Movie-grp"]) + ("" if i == "main" else ".cd" if self.samecd else "." + i), inner, single=self.b["name"] == "fix")
            return
        if i in ("subs", "subsnamed", "subsdeep", "subscd", "fixdir"):
            lines = [b"id: en, index: 0\r\n", b"id: nl, index: 1\r\n"][:rng.choice([1, 2])]
            idx = b"# VobSub index file, v7\r\nsize: 720x576\r\n" + b"timestamp: 00:00:01:000\r\n".join(lines + [b""])
            base = {"subs": "sb", "subsnamed": "sn.vobsubs", "subsdeep": "sd", "subscd": "sc.cd1", "fixdir": "fx"}[i]
            inner = [(base + ".idx", idx), (base + ".sub", media.rb(rng, 500))]
            deep = None
            if i == "subsdeep":
                deep = volumes("in", ["in.rar"], rng, 1, inner, "old")
                inner = [("in.rar", deep[0][1])] + ([] if rng.random() < .5 else [("o.idx", b"id: fr, index: 0\n")])
            folder = {"subs": "Subs", "subsnamed": "", "subsdeep": "Subs", "subscd": rng.choice(["Subs/CD1", "Subs/CD2", "SubsCD1", "VobSubs.CD2", "subs_cd1"]), "fixdir": "Some.Fix"}[i]
            self.volset(i, folder, base, inner, single=True)
            self.nested[i] = (deep, base, lines, inner)
            return
        if i in ("mp3", "mp3b", "flac", "mp3crc", "mp3bad") + DISCS:
            if i == "mp3bad":
                x = media.rb(rng, 1) + bytes(200)
            else:
                x = music("flac" if i == "flac" else "mp3", rng)[1]
            self.add(i, {"mp3": "101-a-grp.mp3", "mp3b": rng.choice(["102-b-grp.mp3", "102-b-grp.mp2"]), "flac": "103-c-grp.flac", "mp3crc": "104-d-grp.mp3", "mp3bad": "105-e-grp.mp3",
                         "disc1": "CD1/01-same-grp.mp3", "disc2": "CD2/01-same-grp.mp3", "disccrc": "CD3/01-same-grp.mp3"}[i], x)
            n = self.names[i, "file"]
            self.names[i, "srs"] = n.rsplit(".", 1)[0] + ".srs"
            self.names[i, "txt"] = n + ".txt"
            return
        raise ValueError(i)

    def sample(self, i):
        rng = self.rng
        base = {"smp": "smp.sample", "twin": "smp.sample", "smp2": "second", "badtwin": "second", "bad": "broken-sample", "zero": "empty", "vob": "v", "rarvob": "rv", "vobzero": "ez",
                "rootsmp": "root.sample", "mvideo": rng.choice(["clip", "grp-clip", "artist-the_clip-x264-2009-grp", "a.clip"])}[i]
        kinds = ["avi", "mkv", "mp4", "wmv"]
        kind = {"smp": "avi", "twin": "mkv", "smp2": "mp4", "badtwin": "avi", "bad": rng.choice(kinds)}.get(i, rng.choice(kinds))
        ext = media.EXT[kind]
        if i in ("vob", "rarvob", "vobzero"):
            ext = ".vob"
        x, main = b"", b""
        if i == "vob":
            x = b"\x00\x00\x01\xba" + media.rb(rng, 4000)
        elif i == "rarvob":
            v = volumes("x", ["x.rar"], rng, 1, [("inner.vob", media.rb(rng, 3000))], "old")
            x = v[0][1]
            self.rarvob = v[0]
        elif i in ("bad", "badtwin"):
            x = self.video(kind)[0]
            x = x[:rng.choice([len(x) // 2, len(x) - 3])]
        elif i not in ("zero", "vobzero"):
            x, main, _ = self.video(kind)
        if i == "smp":
            self.main = main
        n = ("" if i in ("rootsmp", "mvideo") else "Sample/") + base + ext
        self.add(i, n, x)
        twins = ({"smp", "twin"} if i in ("smp", "twin") else {"smp2", "badtwin"} if i in ("smp2", "badtwin") else {i, "?"}) <= self.items
        self.names[i, "srs"] = (n if twins else n.rsplit(".", 1)[0]) + ".srs"
        self.names[i, "txt"] = n + ".txt"
        if i == "rarvob":
            self.names[i, "srr"] = n.rsplit(".", 1)[0] + ".srr"
        if i == "mvideo":
            entry = rng.choice([n, n, n.upper(), n.title()])      # with another case only the name of the SFV tells
            self.files[base + ".sfv"] = sfv([(entry, x)], rng)
            self.names[i, "sfv"] = base + ".sfv"


def cli_rm(w):
    import shutil
    check("/verif_" in w or w.startswith("/tmp/"), "harness: not a scratch folder")
    shutil.rmtree(w)


def stored_name(r, e):
    i, a = e["i"], e["as"]
    if a == "srr" and i != "rarvob":
        return r.names[i, "sfv"][:-4] + ".srr"
    return r.names[i, a]


def check_data(r, e, name, data, d):
    i, a = e["i"], e["as"]
    if a in ("file", "sfv"):
        same(data, r.files[name], "data of %s" % name)
    elif a == "txt":
        check(data.strip(), "%s is empty", name)
    elif a == "srs":
        # the same as what the srs tool makes
        w = os.path.join(d, "cmp.srs")
        smp = os.path.join(r.rel, r.names[i, "file"])
        base = [smp, "-y", "-o", w]
        mains = [v[0][0] for k, v in sorted(r.sets.items()) if k in r.b["main"]] if r.opt["verify"] and i not in ("mp3", "mp3b", "flac", "mp3crc") + DISCS else []
        for m in mains + [None]:
            x = cli.srs(base + (["-c", os.path.join(r.rel, m)] if m else []), cwd=d, env=r.tools)
            if x.code == 0:
                break
        check(x.code == 0, "harness: srs fails for %s: %s", smp, x)
        with open(w, "rb") as f:
            same(data, f.read(), "the SRS of %s" % r.names[i, "file"])
    elif a == "srr":
        parts = M.split(data)
        if i == "rarvob":
            want = R.srr_rar(os.path.basename(r.names[i, "file"])) + r.rarvob[2]
            same(b"".join(p[2] for p in parts if p[0] != "app"), want, "SRR of %s" % name)
            return
        want = b"".join(R.srr_rar(os.path.basename(n)) + kept for n, kept in r.sets[i])
        got = b"".join(p[2] for p in parts if p[0] == "vol")
        same(got, want, "volumes in %s" % name)
        st = {p[1]: p[3] for p in parts if p[0] == "st"}
        if i in r.nested:
            deep, base, lines, inner = r.nested[i]
            if deep:
                check("in.srr" in st, "%s holds %s: no SRR of the archive in the archive", name, sorted(st))
                p2 = M.split(st["in.srr"])
                same(b"".join(p[2] for p in p2 if p[0] == "vol"), R.srr_rar("in.rar") + deep[0][2], "volumes in the inner SRR of %s" % name)
                st.pop("in.srr")
            langs = b"".join(lines)
            diz = st.pop("languages.diz", b"")
            want = b""
            for n, x in inner:
                if n.endswith(".idx"):
                    want += b"# " + n.encode() + b"\n" + (langs if n == base + ".idx" else x)
            if deep:
                want += b"# " + base.encode() + b".idx\n" + langs
            same(diz, want, "languages in %s" % name)
        same(sorted(st), [], "other files in %s" % name)


def case_release(case, d):
    r = Release(case, d)
    b, o = r.b, r.opt
    rng = r.rng
    out = os.path.join(d, "out")
    tmp = os.path.join(d, "tmp")
    os.makedirs(out)
    os.makedirs(tmp)
    relname = os.path.basename(r.rel)
    srr = os.path.join(r.rel if o["inrel"] else out, relname + ".srr")
    old = b"old SRR contents"
    if o["have"] == "yes":
        put(srr, old)
    argv = [r.rel + rng.choice(["", "/"])] + ["-" + o["answer"]] + ["-t", tmp]
    argv += ["-d"] if o["inrel"] else ["-o", out]
    both = False
    flags = [("more", "-i"), ("nosrs", "--no-srs"), ("comp", "-c")]
    for k, f in flags:
        if o[k]:
            argv.append(f)
    if o["subs"] and o["verify"]:
        argv.append("--best")
    else:
        argv += (["-v"] if o["subs"] else []) + (["-s"] if o["verify"] else [])
    if o["skip"]:
        n = os.path.basename(r.names[o["skip"], "file"])
        if rng.random() < .3:
            put(os.path.join(d, "skip.txt"), n.encode() + b"\nother.txt\n")
            argv += ["--skip-list", os.path.join(d, "skip.txt")]
        else:
            argv += ["-x", n, "-x", "other.txt"]
    if o["regex"]:
        import re
        argv += ["--skip-regex", "^" + re.escape(r.names[o["regex"], "file"]).upper().replace("\\", "\\") + "$"]
    rng.shuffle(flags)
    before = tree_state(r.parent)
    res = tool(argv, cwd=out if rng.random() < .5 else d, env=r.tools, order=rng.getrandbits(32))
    what = "%s with %s" % (sorted(r.items), {k: v for k, v in o.items() if v not in ("", False)})
    check(res.code in (0, 1), "scan of %s: %s", what, res)
    after = tree_state(r.parent)
    if o["inrel"]:
        rel = os.path.relpath(srr, r.parent)
        before.pop(rel, None)
        after.pop(rel, None)
    same(after, before, "files of the release (%s)" % what)
    same(sorted(os.listdir(tmp)), [], "temporary folder after the scan")
    left = sorted(x for x in os.listdir(out))
    want_there = b["result"] == "made" or o["have"] == "yes"
    same(left, [relname + ".srr"] if want_there and not o["inrel"] else [], "files in the output folder (%s: %s)" % (what, res))
    same(os.path.isfile(srr), want_there, "an SRR is there (%s): %s" % (what, res))
    if b["result"] == "failed":
        check(res.code == 1, "no SRR for %s, but exit status %s: %s", what, res.code, res)
    else:
        check(res.code == 0, "scan of %s: %s", what, res)
    if b["result"] != "made":
        if want_there:
            with open(srr, "rb") as f:
                same(f.read(), old, "the SRR that was there")
        return
    with open(srr, "rb") as f:
        parts = M.split(f.read())
    same([p[0] for p in parts[:1]], ["app"], "first block")
    got = [(p[1], p[3]) for p in parts if p[0] == "st"]
    want = [(e["rank"], stored_name(r, e["f"]), e["f"]) for e in b["stored"]]
    same(sorted(n for n, _ in got), sorted(n for _, n, _ in want), "stored files (%s): %s" % (what, res.out[-300:]))
    rank = {n: k for k, n, _ in want}
    ranks = [rank[n] for n, _ in got]
    check(ranks == sorted(ranks), "order of the stored files of %s: %s (ranks %s)", what, [n for n, _ in got], ranks)
    names = [n for n, _ in got]
    if b["music"]:
        rest = [n for n in names if rank[n] == 1]
        same(rest, sorted(rest), "order of the stored files of a music release")
    else:
        for _, n, f in want:
            if f["as"] in ("srr", "file") and (f["i"], "sfv") in r.names and r.names[f["i"], "sfv"] in names:
                k = names.index(n)
                same(names[k + 1], r.names[f["i"], "sfv"], "what comes after %s" % n)
    by = {n: f for _, n, f in want}
    for n, x in got:
        check_data(r, by[n], n, x, d)
    vols = [p for p in parts if p[0] == "vol"]
    sets = {i: b"".join(R.srr_rar(n) + kept for n, kept in r.sets[i]) for i in b["main"]}
    got = b"".join(p[2] for p in vols)
    rest = dict(sets)
    while rest:
        k = next((k for k, v in sorted(rest.items()) if got.startswith(v)), None)
        check(k is not None, "volumes of %s: %s, sets still to come: %s", what, [p[1] for p in vols], sorted(rest))
        got = got[len(rest.pop(k)):]
    same(got, b"", "volumes that belong to no main set (%s)" % what)
    same([p for p in parts if p[0] not in ("app", "st", "vol", "oso")], [], "other blocks")


PARTS = {"release": case_release}


def opt(**k):
    o = dict(more=False, nosrs=False, subs=False, verify=False, skip="", regex="", have="no", answer="y", inrel=False, broken="", comp=False)
    o.update(k)
    return o


def tla(o):
    return "[" + ", ".join("%s |-> %s" % (k, str(v).upper() if isinstance(v, bool) else '"%s"' % v) for k, v in o.items()) + "]"


POOL = ['nfo', 'nfocd', 'imdb', 'nonfo', 'm3u', 'jpgproof', 'pngcover', 'gifshots', 'jpegcmp', 'bmpsample', 'proofroot', 'zeros', 'zerosone', 'small', 'like', 'likecap', 'group', 'other',
        'poster', 'posterpng', 'space', 'folder', 'albumart', 'spaceproof', 'proofrar', 'prooftxt', 'otherrar', 'proofsfv', 'log', 'logcd', 'rushchk', 'hidlog', 'cue', 'smp', 'smp2', 'twin',
        'bad', 'badtwin', 'zero', 'vob', 'rarvob', 'vobzero', 'rootsmp', 'video', 'mvideo', 'srs', 'srsboth', 'txt', 'exe', 'diz', 'main', 'cd1', 'cd2', 'subs', 'subsnamed', 'subsdeep', 'subscd',
        'fixdir', 'mp3', 'mp3b', 'flac', 'mp3crc', 'mp3bad', 'disc1', 'disc2', 'disccrc']
OPTS = [opt(), opt(answer="n"), opt(more=True), opt(nosrs=True), opt(subs=True), opt(verify=True), opt(subs=True, verify=True, inrel=True), opt(skip="nfo"), opt(regex="log"), opt(skip="jpgproof", regex="jpgproof"),
        opt(regex="m3u", skip="cue", more=True), opt(skip="proofrar"), opt(have="yes"), opt(have="yes", answer="n"), opt(have="yes", inrel=True), opt(have="yes", answer="n", inrel=True)] + \
       [opt(broken=x, have=h, inrel=r) for x in ("missing", "cut", "zero") for h, r in (("no", False), ("yes", False), ("yes", True))] + \
       [opt(broken="packed"), opt(broken="packed", comp=True), opt(broken="packed", subs=True, verify=True), opt(broken="packed", have="yes")]


def run_release(ctx):
    q = ctx.quick
    consts = lambda n, opts: dict(Pool=Set(POOL), MaxItems=n, Names=Set(["plain", "fix", "subpack"]), Options=Raw("{" + ", ".join(map(tla, opts)) + "}"))
    few = [opt(), opt(subs=True), opt(verify=True, more=True)] if q else OPTS
    pairs = ctx.tlc("Release", constants=consts(1, OPTS), constraint="Emit", invariants=INVS).behaviours
    pairs += ctx.tlc("Release", constants=consts(2, few), constraint="Emit", invariants=INVS).behaviours
    big = ctx.tlc("Release", constants=consts(25, OPTS), constraint="Emit", invariants=INVS, simulate=700 if q else 20000, depth=45, seed=ctx.seed).behaviours
    discs = ctx.tlc("Release", constants=dict(consts(4, few), Pool=Set(list(DISCS) + ["nfo"])), constraint="Emit", invariants=INVS).behaviours
    likes = ctx.tlc("Release", constants=dict(consts(3, [opt(), opt(nosrs=True)]), Pool=Set(["like", "likecap", "mp3bad", "disc1", "m3u"])), constraint="Emit", invariants=INVS).behaviours
    one = {}
    for b in pairs:                                  # each item, each pair of items at least now and then
        one.setdefault((tuple(sorted(b["items"])), b["name"]) if len(b["items"]) < 2 else tuple(sorted(b["items"])), []).append(b)
    singles = [ctx.rng.choice(v) for k, v in sorted(one.items(), key=repr) if len(v[0]["items"]) < 2]
    behs = singles + ctx.sample([b for b in discs if len(b["items"]) > 1], 12 if q else 80) + ctx.sample([b for b in likes if b["music"] and len(b["items"]) > 1], 25 if q else 150) + ctx.sample(pairs, 110 if q else 1200) + ctx.sample(big, 180 if q else 1500)
    ctx.replay(case_release, [{"b": b, "seed": ctx.rng.random()} for b in behs], "release", timeout=200)


# -- which folders are releases ------------------------------------------------------------------------
SCAN = [("A-GRP", "rel"), ("A-GRP-PACK", "rel"), ("A-GRP2", "rel"), ("CD1-Two-Three", "discname"), ("CD2_-_X-Y", "discname"), ("CD_1", "disc"), ("Disc2.Claire", "disc"), ("Left", "plain"),
        ("Right", "plain"), ("Sample", "side"), ("Some Thing-GRP", "space"), ("Subs", "side"), ("b-GRP", "rel")]
CONTENTS = [[], ["nfo"], ["sfv"], ["imdb"], ["txt"], ["vid"], ["nfo", "sfv"], ["badsfv"]]


def case_scan(case, d):
    b, mode = case["b"], case["mode"]
    rng = random.Random(stable_hash([case["seed"], "scan"]))
    top = os.path.join(d, rng.choice(["in", "A-GRP", "in/x-GRP", "Samples/A-GRP2"]))
    paths, contents = [], {}
    for k, x in enumerate(b["dirs"]):
        p = top if k == 0 else os.path.join(paths[x["up"] - 1], SCAN[x["name"] - 1][0])
        paths.append(p)
        os.makedirs(p)
        for f in x["files"]:
            n, data = {"nfo": (rng.choice(["a.nfo", "B.NFO"]), b"nfo %d" % k), "sfv": (rng.choice(["a.sfv", "B.SFV"]), b"x%d.mp3 00000000\r\n" % k),
                       "imdb": (rng.choice(["imdb.nfo", "tvmaze.nfo"]), b"site"), "txt": ("readme.txt", b""), "vid": (rng.choice(["s.avi", "s.MKV"]), b"x"), "badsfv": ("c.sfv", b"; nothing\r\n")}[f]
            contents[os.path.join(p, n)] = data
    for p, x in contents.items():
        put(p, x)
    name = lambda k: paths[k - 1]
    before = tree_state(d)
    if mode in ("list", "nonfo", "nosample"):
        full = rng.random() < .7
        flag = {"list": "--list-releases", "nonfo": "--missing-nfos", "nosample": "--missing-samples"}[mode]
        r = tool([top + rng.choice(["", "/"]), flag] + (["--show-paths"] if full else []), cwd=d)
        check(r.code == 0, "%s: %s", flag, r)
        want = [name(k) for k in b[{"list": "found"}.get(mode, mode)]]
        same(r.out.split("\n")[:-1], want if full else [os.path.basename(x) for x in want], flag)
        same(tree_state(d), before, "files after %s" % flag)
        return
    out, tmp = os.path.join(d, "o-u-t"), os.path.join(d, "t-m-p")
    os.makedirs(out)
    os.makedirs(tmp)
    report = rng.random() < .4
    if report and rng.random() < .3:                 # the second run of this day
        for x in (0, 1):
            put(os.path.join(out, "pyReScene_report_%s.txt" % time.strftime("%Y-%m-%d", time.localtime(time.time() + x * 86400))), b"earlier\n")
    place = lambda rel: os.path.join(rel if mode == "inrel" or inrel else out, os.path.basename(rel) + ".srr")
    inrel = mode == "ask" and rng.random() < .4
    asked, stdin, kept = set(), "", {}
    if mode == "ask":                                # SRRs that are there are replaced only when the user says so
        for k in b["found"]:
            if rng.random() < .5:
                put(place(name(k)), b"old")
                asked.add(place(name(k)))
        there = set(asked)
        for k in b["found"]:
            p = place(name(k))
            if p in there:
                a = rng.choice("yn")
                stdin += answer(rng, a)
                if a == "n":
                    kept[k] = p
            there.add(p)
    before = tree_state(d)
    r = tool([top, "-r", "--no-srs", "-t", tmp] + {"keep": ["-n"], "ask": []}.get(mode, ["-y"]) + (["-l"] if report else []) +
             (["-d"] if (mode == "inrel" or inrel) and not report else ["-d", "-o", out] if mode == "inrel" or inrel else ["-o", out]), cwd=d, stdin=stdin.encode() or None)
    if report:
        logs = {k: v for k, v in tree_state(d).items() if k.startswith("o-u-t/pyReScene_report_")}
        lines = b"".join(v for _, v in sorted(logs.items())).decode().split("\n")
        for k in b["fails"]:
            check(any(x.endswith(name(k) + ": SRR could not be created.") for x in lines), "%s is not in the report: %s", name(k), lines)
        if not kept:
            same(sum(x.endswith(": SRR could not be created.") for x in lines), len(b["fails"]), "failures in the report")
        for k, v in logs.items():
            check(v and v.startswith(before.get(k, b"")), "the report is %r after %r", v, before.get(k))
            before[k] = v
    if kept:
        check(r.code in (0, 1), "%s", r)
    else:
        same(r.code, 1 if b["fails"] else 0, "exit status: %s" % r)
    want = {}                                        # SRR: stored files
    for k in b["found"]:
        rel = name(k)
        if k in b["fails"]:
            continue
        srr = place(rel)
        if mode == "keep" and srr in want or k in kept:
            continue
        before.pop(os.path.relpath(srr, d), None)
        want[srr] = sorted((os.path.relpath(p, rel), x) for p, x in contents.items() if p.startswith(rel + "/") and (p.lower().endswith(".sfv") or p.lower().endswith(".nfo") and x != b"site"))
    after = tree_state(d)
    made = {}
    for p in want:
        q = os.path.relpath(p, d)
        check(os.path.isfile(p), "no SRR for %s: %s", q, r)
        after.pop(q, None)
        with open(p, "rb") as f:
            made[p] = sorted((x[1], x[3]) for x in M.split(f.read()) if x[0] == "st")
    same(after, before, "other files after the scan of %s" % b["dirs"])
    same(made, want, "stored files in the SRRs")
    for k in b["fails"]:
        check(r.out.count(name(k) + "\n") >= 2, "%s is not reported as failed: %s", name(k), r)


PARTS["scan"] = case_scan


def run_scan(ctx):
    q = ctx.quick
    consts = lambda names, contents, n, music=10: dict(Names=Raw("<<" + ", ".join('"%s"' % x for x, _ in names) + ">>"), Kinds=Raw("<<" + ", ".join('"%s"' % x for _, x in names) + ">>"),
                                                       Contents=Raw("{" + ", ".join("{" + ", ".join('"%s"' % x for x in c) + "}" for c in contents) + "}"), MaxFolders=n, MaxMusic=music)
    invs = ["NotNested", "Complete", "OnlyReleases", "OnceEach", "NoSfvLost"]
    fix = lambda behs, names: [dict(b, dirs=[dict(x, name=x["name"] and SCAN.index(names[x["name"] - 1]) + 1) for x in b["dirs"]]) for b in behs]
    small = [SCAN[i] for i in (0, 3, 5, 7, 9)]
    three = fix(ctx.tlc("Scan", constants=consts(SCAN if not q else small, CONTENTS, 3), constraint="Emit", invariants=invs).behaviours, SCAN if not q else small)
    behs = ctx.sample(three, 500 if q else 5000)
    for n in (6, 14):
        behs += ctx.sample(ctx.tlc("Scan", constants=consts(SCAN, CONTENTS if n == 6 else CONTENTS[:3] + CONTENTS[6:], n), constraint="Emit", invariants=invs, simulate=1200 if q else 30000,
                                   depth=45, seed=ctx.seed + n).behaviours, 300 if q else 2500)
    behs = [b for b in behs if len(b["dirs"]) > 1 or b["dirs"][0]["files"]]          # it waits for a disc when there is nothing
    cases = [{"b": b, "seed": ctx.rng.random(), "mode": ctx.rng.choice(["list", "list", "list", "nonfo", "nosample"])} for b in behs]
    made = [b for b in behs if b["found"]]
    cases += [{"b": b, "seed": ctx.rng.random(), "mode": ctx.rng.choice(["made", "keep", "inrel"])} for b in ctx.sample(made, 60 if q else 500)]
    cases += [{"b": b, "seed": ctx.rng.random(), "mode": "ask"} for b in ctx.sample([b for b in made if not b["fails"]], 25 if q else 250)]
    ctx.replay(case_scan, cases, "scan", timeout=200, chunk=10)


# -- which SFVs are about the release itself ---------------------------------------------------------------
RELNAMES = {"plain": "Some.Movie.2001.DVDRip.XviD-GRP", "subpack": "Some.Movie.SUBPACK.DVDRip-GRP", "vobsub": "Some.Movie.VOBSUBS.DVDRip-GRP", "subtitle": "Some.Movie.Subtitles.DVDRip-GRP",
            "sub.pack": "Some.Movie.SUB.PACK-GRP", "subs": "Some.Movie.NORDiC.SUBS.XviD-GRP", "subfix": "Some.Movie.DVDRip.SUBFIX-GRP", "fix": "Some.Movie.DVDRip.FiX-GRP"}
TOKENS = {"plain": "mv", "vobsubs": "mv.vobsubs", "subtitles": "mv-Subtitles", "subs": "mv.NordicSubs", "subscd": "mv.subs.cd1", "subsflac": "mv_subs_flac", "subszero": "00-mv-subs"}


def case_sfvs(case, d):
    b = case["b"]
    rng = random.Random(stable_hash([case["seed"], "sfvs"]))
    rel = os.path.join(d, rng.choice(["in", "Subs", "Proof", "x.fix"]), RELNAMES[b["rel"]])
    os.makedirs(rel)
    names, sets = [], []
    used = set()
    for k, e in enumerate(b["sfvs"]):
        base = TOKENS[e["tok"]] + rng.choice([".a%d", "-b%d"]) % k
        pre = e["dir"] + "/" if e["dir"] else ""
        n = 2 if e["set"] == "many" else 1
        kept = b""
        if e["set"] == "music":
            lines = [(base + rng.choice([".mp3", ".flac", ".mp2"]), b"music")]
        elif e["set"] == "jpg":
            lines = [(base + ".jpg", b"jpg")]
            put(os.path.join(rel, pre + base + ".jpg"), b"jpg")
        else:
            inner = [("a.jpg" if e["set"] == "image" else "a.txt", media.rb(rng, 40))]
            vols = volumes(base, volnames(base, n, rng, "old"), rng, n, inner, "old")
            lines = [(x, y) for x, y, _ in vols]
            for x, y, _ in vols:
                if e["set"] != "gone":
                    put(os.path.join(rel, pre + x), y)
            kept = b"".join(R.srr_rar(pre + x) + y for x, _, y in vols)
        sets.append(kept)
        names.append(pre + base + ".sfv")
        put(os.path.join(rel, names[-1]), sfv(lines, rng))
    out, tmp = os.path.join(d, "o"), os.path.join(d, "t")
    os.makedirs(out)
    os.makedirs(tmp)
    r = tool([rel, "-y", "--no-srs", "-t", tmp, "-o", out], cwd=d, order=len(out))
    check(r.code == 0, "scan of %s: %s", b, r)
    with open(os.path.join(out, RELNAMES[b["rel"]] + ".srr"), "rb") as f:
        parts = M.split(f.read())
    got = b"".join(p[2] for p in parts if p[0] == "vol")
    rest = {k: sets[k - 1] for k in b["wanted"] if sets[k - 1]}
    while rest:
        k = next((k for k, v in sorted(rest.items()) if got.startswith(v)), None)
        check(k is not None, "volumes in the SRR of %s: %s, still to come: %s", [(RELNAMES[b["rel"]])] + names, [p[1] for p in parts if p[0] == "vol"], [names[k - 1] for k in rest])
        got = got[len(rest.pop(k)):]
    same(got, b"", "volumes that are not of %s" % RELNAMES[b["rel"]])
    st = [p[1] for p in parts if p[0] == "st" and p[1].endswith(".sfv")]
    same(sorted(st), sorted(names), "SFVs in the SRR")
    main = {names[k - 1] for k in b["wanted"]}
    same([n in main for n in st], sorted(n in main for n in st), "main SFVs come last in %s (main %s)" % (st, sorted(main)))


PARTS["sfvs"] = case_sfvs


def run_sfvs(ctx):
    q = ctx.quick
    consts = lambda n: dict(Tokens=Set(sorted(TOKENS)), Folders=Set(["", "CD1", "Subs", "VobSubs", "CZSubs", "Codec", "Covers", "Subs/CD1", "Subs.CD2", "Proof", "My.SubPack", "A.SubFix", "DiRFiX"]),
                            Sets=Set(["image", "text", "gone", "jpg", "one", "many", "music"]), Releases=Set(sorted(RELNAMES)), MaxSfvs=n)
    invs = ["OwnFirst", "PlainIn", "NeverNone"]
    one = ctx.tlc("SfvClass", constants=consts(1), constraint="Emit", invariants=invs).behaviours
    more = ctx.tlc("SfvClass", constants=consts(4), constraint="Emit", invariants=invs, simulate=500 if q else 20000, depth=12, seed=ctx.seed).behaviours
    behs = ctx.sample(one, 90 if q else 700) + ctx.sample(more, 90 if q else 700)
    ctx.replay(case_sfvs, [{"b": b, "seed": ctx.rng.random()} for b in behs], "sfvs", timeout=200, chunk=10)


def case_subs(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    nodes, up, made = b["nodes"], b["up"], set(b["made"])
    built = {}

    def build(k):
        """Archive k: ([(name, bytes, blocks kept)], [(index file, lines)])"""
        if k in built:
            return built[k]
        inner, langs = [], []
        for j in range(1, nodes[k - 1]["idx"] + 1):
            n = "a%d-%d%s" % (k, j, rng.choice([".idx", ".IDX", ".Idx"]))
            lines = [b"id: en, index: 0\r\n", b"id: nl, index: 1\n", b"id: --, index: 2\r\n"][:rng.choice([0, 1, 2, 3])]
            x = b"# VobSub index file, v7\r\nsize: 720x576\r\n # id: no\r\n" + b"timestamp: 00:00:01:000\r\n".join(lines + [b""])
            inner.append((n, x))
            langs.append(b"# %s\n" % n.encode() + b"".join(lines))
        for c in range(1, len(nodes) + 1):
            if up[c - 1] == k:
                inner += [(n, x) for n, x, _ in build(c)[0]]
        if rng.random() < .7 or not inner:
            inner.append(("a%d.sub" % k, media.rb(rng, rng.choice([10, 500, 70000]))))
        base = ["subs-%s", "Subs.%s-grp"][rng.random() < .5] % "abcdefgh"[k - 1]
        n = rng.choice([1, 1, 2, 3]) if up[k - 1] == 0 and b["opt"]["sfv"] == "good" or rng.random() < .2 else 1
        naming = rng.choice(["old", "new"])
        vols = volumes(base, volnames(base, n, rng, naming), rng, n, inner, naming, False)
        if nodes[k - 1]["bad"]:
            name, x, kept = vols[0]
            x = rng.choice([x[:30], b"no archive at all"])
            vols[0] = (name, x, kept)
        built[k] = (vols, langs)
        return built[k]

    rel = os.path.join(d, "Rel-GRP", "Subs")
    top = [k for k in range(1, len(nodes) + 1) if up[k - 1] == 0]
    for k in top:
        for n, x, _ in build(k)[0]:
            put(os.path.join(rel, n), x)
    first = build(top[0])[0][0][0]
    if b["opt"]["sfv"] == "good":
        name = rng.choice(["subs.sfv", "Rel-subs.SFV"])
        put(os.path.join(rel, name), sfv([(n, x) for k in top for n, x, _ in build(k)[0]], rng))
    else:
        name = first[:-4] + ".sfv"
        put(os.path.join(rel, name), rng.choice([b"", b"; nothing\r\n"]))
    tmp, out = os.path.join(d, "tmp"), os.path.join(d, "out")
    os.mkdir(tmp)
    os.mkdir(out)
    ok = [k for k in top if k in made]

    def srr_name(k):
        return (build(k)[0][0][0][:-4] if up[k - 1] or len(top) > 1 else name[:-4]) + ".srr"
    old = os.path.join(out, srr_name(ok[0])) if ok and b["opt"]["old"] != "none" else ""
    if old:
        put(old, b"old")
    before = tree_state(os.path.join(d, "Rel-GRP"))
    argv, stdin = ["--vobsubs", os.path.join(rel, name), "-t", tmp, "-o", out], b""
    if old and rng.random() < .4:
        stdin = {"yes": b"what\nY\n", "no": b"\nn\n"}[b["opt"]["old"]]
    else:
        argv.append({"yes": "-y", "no": "-n", "none": rng.choice(["-y", "-n"])}[b["opt"]["old"]])
    r = tool(argv, cwd=d, stdin=stdin)
    check(r.code == 0, "pyrescene --vobsubs fails: %s", r)
    check(tree_state(os.path.join(d, "Rel-GRP")) == before, "making SRRs of the subs changed them")
    same(sorted(os.listdir(tmp)), [], "left in the temporary folder")

    def compare(k, data, diz, what):
        parts = M.split(data)
        same(b"".join(p[2] for p in parts if p[0] == "vol"), b"".join(R.srr_rar(n) + kept for n, _, kept in build(k)[0]), "volumes in %s" % what)
        st = {p[1]: p[3] for p in parts if p[0] == "st"}
        same(len(st), len([p for p in parts if p[0] == "st"]), "names of the files in %s that differ" % what)
        if diz:
            text = st.pop("languages.diz", b"")
            for x in diz:
                check(x in text, "languages.diz in %s misses %r: %r", what, x, text)
            same(len(text), sum(map(len, diz)), "size of languages.diz")
        kids = [c for c in made if up[c - 1] == k]
        same(sorted(st), sorted(srr_name(c) for c in kids), "files in %s" % what)
        for c in kids:
            compare(c, st[srr_name(c)], [], what + "/" + srr_name(c))
    langs = [x for k in made for x in build(k)[1]]
    same(sorted(os.listdir(out)), sorted(srr_name(k) for k in ok), "SRRs of the subs")
    for k in ok:
        p = os.path.join(out, srr_name(k))
        with open(p, "rb") as f:
            data = f.read()
        if p == old and b["opt"]["old"] == "no":
            same(data, b"old", "the SRR that had to stay")
        else:
            compare(k, data, langs if k == ok[0] else [], srr_name(k))
    return {"srrs": len(made), "languages": len(langs)}


PARTS["subs"] = case_subs


def run_subs(ctx):
    q = ctx.quick
    r = ctx.tlc("Subs", constants=dict(MaxNodes=3, MaxDepth=3, Idx={0, 1, 2}, Sfvs={"good", "bare"}, Olds={"none", "yes", "no"}), constraint="Emit",
                invariants=["MadeRight", "LanguagesRight", "InOrder"])
    s = ctx.tlc("Subs", constants=dict(MaxNodes=7, MaxDepth=4, Idx={0, 1}, Sfvs={"good", "bare"}, Olds={"none", "yes"}), constraint="Emit",
                invariants=["MadeRight", "LanguagesRight", "InOrder"], simulate=40 if q else 600, depth=40)
    ctx.replay(case_subs, [{"b": x} for x in ctx.sample(r.behaviours, 110 if q else 3000) + ctx.sample(s.behaviours, 60 if q else 1500)], "subs", timeout=120)


def run(ctx):
    only = os.environ.get("VERIF_PARTS", "release scan sfvs subs").split()      # for development
    for name in only:
        globals()["run_" + name](ctx)
