"""P17: SRR files from Usenet posts (spec/Usenet.tla), the file reader on top of articles (spec/NntpFile.tla) and the
yEnc decoder (spec/Yenc.tla).  The real tool talks to news servers on the loopback interface."""
import os
import random
import re
import zlib
from xml.sax.saxutils import quoteattr, escape
from . import cli, rarset, srrmodel
from . import usenet as U
from .core import Failure, check, same, stable_hash, REPO
from .tlc import Set

INVS = ["SuccessHasSrr", "SrrIsSuccess", "EachOnce", "OnlyPosted", "AllOfTheSfvs", "AnyServerWillDo", "MidNotNeeded", "DryDoesNothing"]
NAMES = {"nfo": "%s-grp%d.nfo", "jpg": "%s.cover%d.jpg", "proofjpg": "%s-Proof%d.jpg", "png": "%s%d.png", "bmp": "%s-%d.bmp", "srs": "%s-vid%d.srs",
         "subsfv": "%s-subs%d.sfv", "sjpg": "%s%d_s.jpg", "thumb": "%s%d-thumb.jpg", "poster": "%s%d_poster.jpg", "smalljpg": "%s%d.jpg",
         "kerepng": "%s%d.png", "usc": "UsenetSpaceCowboys.nfo", "newz": "_newzNZB.nfo", "other": None,
         "ich": "ich%s%d.part2.rar", "zed": "zed%s%d.part1.rar", "kere": "www.kere.ws.%s%d", "twenty": None}


class File(object):
    """A posted file: name, data and articles."""
    def __init__(self, name, data, seg, line=128, rng=None, dots=True, fake_size=None, multi=None):
        self.name, self.data, self.seg = name, data, seg
        self.parts = [data[i:i + seg] for i in range(0, len(data), seg)] or [b""]
        n = len(self.parts)
        whole = zlib.crc32(data) & 0xffffffff
        self.articles = [U.article(name, p, k, n, fake_size or len(data), (k - 1) * seg, whole, rng, line, multi if n == 1 else True, dots)
                         for k, p in enumerate(self.parts, 1)]


def subject(rng, name, k, n):
    pre = rng.choice(["[#a.b.x]-[ Some.Release-GRP ]-[%d/20] - ", "(Some.Release-GRP) [%d/20] - ", "Some.Release-GRP [%d/20] "]) % k
    return '%s"%s" yEnc (1/%d)' % (pre, name, n)


def nzb(posts, rng, groups):
    """posts: [(File, message ids or None)].  None: the article is not in the NZB."""
    o = ['<?xml version="1.0" encoding="utf-8" ?>', '<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">']
    for k, (f, ids) in enumerate(posts, 1):
        o.append('<file poster="a@b.c" date="%d" subject=%s>' % (1265000000 + k, quoteattr(subject(rng, f.name, k, len(f.parts)))))
        o.append("<groups>" + "".join("<group>%s</group>" % g for g in groups) + "</groups><segments>")
        segs = [(i, m) for i, m in enumerate(ids) if m]
        if rng.random() < .2:
            rng.shuffle(segs)
        for i, m in segs:
            o.append('<segment bytes="%d" number="%d">%s</segment>' % (sum(len(x) + 2 for x in f.articles[i]) + 500, i + 1, escape(m)))
        o.append("</segments></file>")
    o.append("</nzb>")
    return "\n".join(o).encode("utf-8")


def script(argv, cwd, servers, logs, name="srr_usenet"):
    """Runs the tool with the servers in the same process; what they were asked goes to the files logs."""
    def fn():
        import runpy
        import sys
        import time
        time.sleep = lambda s: None
        p = os.path.join(os.environ.get("VERIF_REPO", REPO), "usenet", name + ".py")
        sys.path.insert(0, os.path.dirname(p))
        sys.argv = [p] + list(argv)
        for s in servers:
            if s:
                s.start()
        try:
            runpy.run_path(p, run_name="__main__")
        finally:
            for s, l in zip(servers, logs):
                if s:
                    with open(l, "w") as f:
                        f.write("\n".join(s.log))
    return cli.run_child(fn, cwd=cwd, timeout=100)


def data_only(vol, seg):
    """Numbers of the articles of a volume (but first and last) with nothing but packed data, and next to none that has anything else."""
    need = set()
    pos = 0
    for kind, hdr, srr, n in vol.tokens:
        for b in (pos, pos + len(hdr)):
            need.add(b // seg)
            need.add((b - 1) // seg)
        need.update(range(pos // seg, (pos + len(hdr)) // seg + 1))
        pos += len(hdr) + n
    last = (len(vol.data) - 1) // seg
    return [k for k in range(1, last) if not {k - 1, k, k + 1} & need]


class Case(object):
    def __init__(self, case):
        b, seed = case["b"], case["seed"]
        rng = self.rng = random.Random(stable_hash(case))
        self.b = b
        self.line = rng.choice([128, 128, 64, 256, 20])
        self.files = {}                        # item key -> File
        flawed = bool(b["flaws"])
        self.sets = []
        for i, s in enumerate(b["sets"], 1):
            base = "abcdefgh"[s["rank"]] + rng.choice(["-grp", "grp.movie", "_x"])
            if s["word"] != "main":
                base += rng.choice(["-%s", ".%s", "%s"]) % rng.choice([s["word"], s["word"].capitalize()])
            lay = case["lay"][i - 1]
            kw = dict(units=[2500, 4000, 7001], max_total=60000) if flawed or rng.random() < .3 else dict(max_total=30000)
            c = rarset.concretise(lay, "%s|%d" % (seed, i), setnr=i, base=base, **kw)
            c.base = base
            post = {}
            low = s["casing"]
            for v in c.volumes:
                v.listed = v.name
                if low == "sfvup":
                    v.name = v.name.lower()
                    v.listed = v.name.upper() if rng.random() < .5 else v.name[:-3] + v.name[-3:].upper()
                elif low == "postup":
                    v.listed = v.name.lower()
                    v.name = v.name.upper() if rng.random() < .5 else v.name[:-3] + v.name[-3:].upper()
            self.sets.append(c)
            lines = ["%s %08x" % (v.listed, zlib.crc32(v.data)) for v in c.volumes]
            if s["sfv"] == "other":
                lines = ["01-song.mp3 12345678", "02-song.mp3 abcdef01"]
            elif rng.random() < .2:
                lines.append("readme.txt 12345678")
            if rng.random() < .2 and lines:
                lines.append(lines[0])
            rng.shuffle(lines)
            if s["sfv"] == "empty":
                lines = []
            nl = rng.choice(["\r\n", "\n"])
            text = (nl.join(rng.choice([[], ["; comment"]]) + lines) + nl).encode("latin-1")
            if not text.strip():
                text = b"; nothing here\r\n"
            self.files["sfv", i, 0] = self.file(base + ".sfv", text, small=True, flawed=flawed)
            for j, v in enumerate(c.volumes, 1):
                n = len(v.data)
                if flawed:
                    seg = max(1, n // rng.randrange(9, 14))
                else:
                    seg = rng.choice([n, max(1, n // 2), max(1, n // 3), max(1, n // 7), max(1, n // 20), rng.randrange(1, n + 1), 100, 1000])
                    seg = max(seg, n // 60 + 1)
                v.seg = seg
                line = self.line
                if rng.random() < .35:          # a line that begins with a dot inside the headers
                    at = [k for k in range(20, min(130, n)) if v.data[k] == 4]
                    self.line = rng.choice(at) if at else line
                self.files["vol", i, j] = self.file(v.name, v.data, seg, **({"dots": False} if self.line != line else {}))
                self.line = line
        for x in b["post"]:
            if x["t"] == "x":
                self.files["x" + x["k"], x["s"], 0] = self.extra(x["k"], x["s"], flawed)

    def file(self, name, data, seg=None, small=False, flawed=False, **kw):
        rng = self.rng
        if seg is None:
            n = len(data)
            seg = rng.choice([n, n, n // 2, n // 3, n // 5]) if not flawed else rng.choice([n // 2, n // 3, n // 4])
            seg = max(1, seg, n // 30)
        kw.setdefault("dots", rng.random() < .7)
        return File(name, data, seg, self.line, rng, multi=rng.random() < .3, **kw)

    def extra(self, k, n, flawed):
        rng = self.rng
        stem = rng.choice(["zz", "a b", "grp", "q"])
        size = {"jpg": 9500, "thumb": 9500, "poster": 9500, "smalljpg": 3000, "sjpg": 9700, "proofjpg": 5000}.get(k, rng.choice([50, 400, 2000]))
        data = rng.randbytes(size)
        if rng.random() < .3:
            data = bytes(rng.choice([4, 214, 224, 19, 227, 65, 0, 0]) for _ in range(size))      # much to escape, dots
        if k == "other":
            name = rng.choice(["zz%d.par2", "q%d.vol03+04.PAR2", "list%d.txt", "clip%d.mkv", "x%d.nzb"]) % n
        elif k == "twenty":
            name = "".join(rng.choice("abcXYZ0189") for _ in range(20)) + ".rar"
        elif "%" not in NAMES[k]:
            name = NAMES[k]
        elif k in ("ich", "zed"):
            name = NAMES[k] % (rng.randrange(1, 99), n)
        else:
            name = NAMES[k] % (stem, n)
        if k == "subsfv":
            data = b"a.idx 01020304\r\nb.rar 12345678\r\n"
        return self.file(name, data, flawed=flawed, **({"fake_size": 592451} if k == "kerepng" else {}))


def key(x):
    return ("x" + x["k"] if x["t"] == "x" else x["t"], x["s"], x["v"])


def case_post(case, d):
    b = case["b"]
    c = Case(case)
    rng = c.rng
    conf, opt = b["conf"], b["conf"]["opt"]
    nserv = conf["n"]
    groups = ["alt.binaries.a", "alt.binaries.b"][:rng.randrange(1, 3)]
    arts = [dict() for _ in range(nserv)]
    flaws = [dict() for _ in range(nserv)]
    posts = []
    dup = None
    if conf["dup"] != "none":
        cand = [x for x in b["post"] if not (x["t"] == "x" and x["k"] in ("kerepng", "other", "png"))]
        dup = key(rng.choice(cand)) if cand else None
    used = {}
    mids = {}

    def add(x, which):
        f = c.files[key(x)]
        ids = []
        bad = {}
        last = len(f.parts) - 1
        for g in b["flaws"]:
            if key(g["f"]) == key(x):
                fl = g["fl"]
                if fl["cls"] == "mid":
                    v = c.sets[x["s"] - 1].volumes[x["v"] - 1]
                    for k in data_only(v, v.seg):
                        bad[k] = fl
                else:
                    bad[0 if fl["cls"] == "first" else last] = fl
        if which == "short" and last == 0:
            return                             # nothing to leave out
        for k, lines in enumerate(f.articles):
            mid = "part%d.%d.%s%d&@news.example" % (k + 1, len(posts), re.sub("[^a-z]", "", f.name.lower())[:6], rng.randrange(10 ** 6))
            fl = bad.get(k)
            for s in range(nserv):
                arts[s][mid] = lines
                if fl and s + 1 in fl["srv"] and fl["kind"] != "nzb":
                    kind = fl["kind"]
                    if kind == "noend":
                        flaw = ("lines", lines[:2 if lines[1].startswith(b"=ypart") else 1])
                    elif kind == "crc":
                        body = [i for i, l in enumerate(lines) if not l.startswith(b"=y")]
                        if not body:
                            continue
                        i = body[len(body) // 2]
                        l = bytearray(lines[i])
                        j = [n for n in range(len(l)) if l[n] not in (61, 46) and (n == 0 or l[n - 1] != 61)]
                        if not j:
                            continue
                        l[j[0]] = 88 if l[j[0]] != 88 else 89
                        flaw = ("lines", lines[:i] + [bytes(l)] + lines[i + 1:])
                    else:
                        flaw = kind
                    flaws[s][mid] = flaw
            if fl and fl["kind"] == "nzb" or which == "short" and k == last:
                mid = None
            ids.append(mid)
            if mid:
                mids[mid] = (key(x), k)
        posts.append((f, ids))
    for x in b["post"]:
        if key(x) == dup:
            how = {"same": ["full", "full"], "worse": ["full", "short"], "better": ["short", "full"]}[conf["dup"]]
            for h in how:
                add(x, h)
        else:
            add(x, "full")
    low = [f.name.lower() for f in {id(f): f for f, _ in posts}.values()]
    if len(set(low)) != len(low):
        return {"skipped": 1}
    user = rng.choice(["", "joe"])
    pw = "secret" if user else ""
    known = None
    need_group = opt["group"] and rng.random() < .5
    if opt["group"] and len(groups) > 1 and rng.random() < .5:
        known = [groups[rng.randrange(2)]]     # not all groups of the post on every server
    servers, logs, cfg = [], [], []
    for s in range(nserv + 1):
        logs.append(os.path.join(d, "log%d" % s))
        if s == nserv:
            srv = U.Server({m: [b"=ybegin line=128 size=3 name=bad", b"abc", b"=yend size=3 crc32=00000000"] for m in arts[0]})   # not enabled
        elif s + 1 == conf["down"]:
            servers.append(None)
            cfg.append((s, U.closed_port()))
            continue
        else:
            srv = U.Server(arts[s], flaws[s], user, pw, known, rng.choice(["right", "right", "none", "low", "high", "zero"]), need_group)
        servers.append(srv)
        cfg.append((s, srv.port))
    where = os.path.join(d, "in")
    os.makedirs(where)
    rel = rng.choice(["Some.Release-GRP", "a [b] c", "x"])
    doc = nzb(posts, rng, groups)
    src = os.path.join(where, rel + ".nzb")
    with open(src, "wb") as f:
        f.write(doc)
    argv = []
    secs = []
    for s, port in cfg:
        if s == 0 and opt["cli"]:
            argv += ["-s", "127.0.0.1", "-t", str(port)] + (["-l", user, "-p", pw] if user else [])
            continue
        secs.append("[server_%s]\npriority = %d\nenabled = %s\nhost = 127.0.0.1\nport = %d\nusername = %s\npassword = %s\nreadermode = %s\n" % (
            rng.choice("abcxyz") + str(s), (s + 1) * 3, s < nserv, port, user, pw, rng.choice(["True", "False"])))
    rng.shuffle(secs)
    with open(os.path.join(d, "my.cfg"), "w") as f:
        f.write("\n".join(secs))
    argv += ["-f", os.path.join(d, "my.cfg")]
    argv += [o for o, on in (("-x", not opt["stat"]), ("-a", opt["full"]), ("-g", opt["group"]), ("-c", opt["crc"]), ("-n", opt["dry"])) if on]
    out = where
    if rng.random() < .5:
        out = os.path.join(d, "srrs")
        argv += ["-o", out]
        if rng.random() < .5:
            os.mkdir(out)
    argv += [where if rng.random() < .4 and "[" not in rel else (src if rng.random() < .5 else os.path.relpath(src, d))]
    r = script(argv, d, servers, logs)
    what = "exit %r, output %r, errors %r" % (r.code, r.out[-1200:], r.err[-1200:])
    check(r.code == 0, "the tool failed: %s", what)
    # where the NZB went
    place = []
    srrs = []
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            if f.endswith(".nzb"):
                place.append(os.path.relpath(p, where))
                check(open(p, "rb").read() == doc, "the NZB file was changed")
            elif f.endswith(".srr") or f not in ("my.cfg",) and not f.startswith("log"):
                srrs.append(p)
    check(len(place) == 1, "NZB files afterwards: %s (%s)", place, what)
    nzbdir = os.path.dirname(place[0])
    want = b["nzb"]
    okay = {"success": nzbdir == "success", "repacks": nzbdir == "repacks", "stay": nzbdir == "", "aside": nzbdir not in ("success", "repacks"), "putaway": nzbdir != "success"}[want]
    check(okay, "the NZB is in folder %r, specification: %s (%s)", nzbdir, want, what)
    if b["out"] == "none":
        check(not srrs, "files made although there can be no SRR: %s (%s)", srrs, what)
        return {"none": 1}
    path = os.path.join(out, *(["srr_no_sfv"] if b["out"] == "nosfv" else []), rel + ".srr")
    check(srrs == [path], "files made: %s instead of %s (%s)", srrs, path, what)
    got = srrmodel.split(open(path, "rb").read())
    check(got and got[0][0] == "app", "no SRR header")
    stored = [(n, data) for k, n, raw, data in got if k == "st"]
    exp = [(c.files[key(x)].name, c.files[key(x)].data) for x in b["stored"]]
    check([n for n, _ in stored] == [n for n, _ in exp], "stored files %s, specification %s (%s)", [n for n, _ in stored], [n for n, _ in exp], what)
    for (n, a), (_, e) in zip(stored, exp):
        same(a, e, "stored file %s" % n)
    vols = [(n, raw) for k, n, raw, data in got if k == "vol"]
    exp = []
    for x in b["vols"]:
        v = c.sets[x["s"] - 1].volumes[x["v"] - 1]
        exp.append((v.name, rarset.R.srr_rar(v.name) + b"".join(t[2] for t in v.tokens)))
    check([n for n, _ in vols] == [n for n, _ in exp], "volumes %s, specification %s (%s)", [n for n, _ in vols], [n for n, _ in exp], what)
    for (n, a), (_, e) in zip(vols, exp):
        same(a, e, "headers of volume %s" % n)
    check({k for k, _, _, _ in got} <= {"app", "st", "vol"}, "other blocks in the SRR")
    # not everything is downloaded, and nothing from servers that are not enabled
    check(not os.path.getsize(logs[nserv]), "a server that is not enabled was used: %s", what)
    data = {}
    for x in b["vols"]:
        v = c.sets[x["s"] - 1].volumes[x["v"] - 1]
        data[key(x)] = set(data_only(v, v.seg))
    n = 0
    for l in logs[:nserv]:
        if os.path.isfile(l):
            for line in open(l):
                m = re.match(r"BODY <(.*)>", line.strip())
                if m and m.group(1) in mids:
                    k, seg = mids[m.group(1)]
                    n += 1
                    check(seg not in data.get(k, ()), "article %d of %s has nothing but packed data and was fetched", seg + 1, c.files[k].name)
    return {"srr": 1, "bodies": n}


ENC = {"nul": 0, "lf": 10, "cr": 13, "eq": 61, "tab": 9, "sp": 32, "dot": 46, "esc": 27, "at": 64, "J": 74, "M": 77, "brace": 125, "I": 73, "quote": 96,
       "n": 110, "bracket": 91, "y": 121, "k": 107}


def yenc_lines(b, rng):
    """Encoded lines of a behaviour of Yenc.tla and the decoded bytes."""
    vals = {}
    data = bytearray()
    for c in b["data"]:
        v = ENC.get(c)
        if v is None:
            v = rng.choice([x for x in range(256) if x not in ENC.values()])
            vals.setdefault(c, []).append(v)
        data.append((v - 42) & 255)
    it = iter(data)
    lines = []
    for l in b["lines"]:
        o = bytearray()
        i = 0
        while i < len(l):
            v = (next(it) + 42) & 255
            if l[i] == "=":
                o += bytes((61, (v + 64) & 255))
                i += 2
            else:
                o.append(v)
                i += 1
        lines.append(bytes(o))
    return lines, bytes(data)


def case_yenc(case, d):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        import yenc
    n = 0
    for j, b in enumerate(case["bs"]):
        rng = random.Random(stable_hash([case["seed"], j]))
        lines, data = yenc_lines(b, rng)
        fr = b["frame"]
        begin = rng.choice([0, 0, 1000]) if fr["part"] else 0
        k = rng.randrange(1, 9) if fr["part"] else 1
        size = begin + len(data) + rng.choice([0, 50]) if fr["part"] else len(data)
        name = rng.choice([b"a.rar", b"part= total=.nfo", b"size=9 name=x.sfv", b"with blank.jpg", b"=y.r00", b"\xe9.rar"])
        head = [b"=ybegin " + (b"part=%d " % k if fr["part"] else b"") + (b"total=9 " if fr["total"] else b"") + b"line=128 size=%d name=%s" % (size, name)]
        if fr["part"]:
            head.append(b"=ypart begin=%d end=%d" % (begin + 1, begin + len(data)))
        crc = zlib.crc32(data) & 0xffffffff
        if fr["crc"] == "wrong":
            crc ^= 1 << rng.randrange(32)
        tail = [b"=yend size=%d" % len(data) + (b" part=%d" % k if fr["part"] else b"")]
        if fr["crc"] != "none":
            f = rng.choice([b"%08x", b"%08X", b"%x"]) % crc
            tail[0] += (b" pcrc32=" if fr["part"] else b" crc32=") + f
        if fr["part"] and rng.random() < .3:
            tail[0] += b" crc32=%08x" % rng.randrange(1 << 32)       # of the whole file
        if fr["yend"] == "none":
            tail = []
        pad = [b""] * rng.choice([0, 0, 1, 3])
        wire = [b"." + x if x.startswith(b".") else x for x in pad + head + lines + tail + pad]
        got = [x[1:] if x.startswith(b"..") else x for x in wire]     # what nntplib makes of it
        cut = len(data)
        if b["want"] == "part":
            keep = rng.randrange(len(pad) + len(head), len(got) + 1)
            got = got[:keep]
            m = keep - len(pad) - len(head)
            cut = sum(len(x) - x.count(b"=") + x.count(b"==") for x in lines[:m]) if m < len(lines) else len(data)
        what = "article %r" % (wire,)
        try:
            r = yenc.decode(list(got), b["want"] == "part", not fr["check"])
        except (yenc.YencException, yenc.CrcError):
            check(b["res"] == "reject", "a good article was refused: %s", what)
            continue
        check(b["res"] == "data", "a bad article was accepted: %s", what)
        if b["want"] == "part":
            check(bytes(r["data"]) == data[:len(r["data"])] and len(r["data"]) >= min(cut, len(data)) - 1, "first lines decoded to %r: %s", bytes(r["data"]), what)
        else:
            same(bytes(r["data"]), data, "decoded " + what)
        exp = dict(part_number=k, part_begin=begin + 1, part_end=begin + len(data), part_size=len(data), file_size=size, file_name=name)
        gotf = {x: r[x] for x in exp}
        check(gotf == exp, "fields %r instead of %r: %s", gotf, exp, what)
        n += 1
    return {"decoded": n}


def case_reader(case, d):
    """Histories of NntpFile.tla with the real class and server."""
    b = case["b"]
    rng = random.Random(stable_hash(case))
    unit = rng.choice([1, 7, 40, 150])
    total = b["total"] * unit - (rng.randrange(unit) if rng.random() < .3 else 0)
    pool = [x for x in range(256) if not 0x72 <= x <= 0x7b]
    data = bytes(rng.choice(pool) for _ in range(total))
    name = "x.r00" if b["rar"] else "x.nfo"
    f = File(name, data, b["seg"] * unit, rng.choice([128, 20, 64]), rng, dots=rng.random() < .7)
    arts = {"id%d@x" % k: a for k, a in enumerate(f.articles)}
    header = rng.choice(["right", "right", "none", "low", "high", "zero"])
    shuffled = list(enumerate(sorted(arts)))
    full = rng.random() < .2
    result = os.path.join(d, "result")

    def fn():
        import importlib.util
        import sys
        import contextlib
        p = os.path.join(os.environ.get("VERIF_REPO", REPO), "usenet", "srr_usenet.py")
        sys.path.insert(0, os.path.dirname(p))
        sys.argv = [p]
        spec = importlib.util.spec_from_file_location("srr_usenet_mod", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        import nzb_utils
        import nntplib
        srv = U.Server(arts, lines_header=header).start()
        doc = nzb([(f, ["id%d@x" % k for k in range(len(f.articles))])], rng, ["a.b"])
        src = os.path.join(d, "f.nzb")
        with open(src, "wb") as h:
            h.write(doc)
        m.EXTRA_SERVERS = [("127.0.0.1", srv.port, "", "", None)]

        class O(object):
            nntp_debug_level = 0
            nostat = False
        m.options = O
        if full:
            m.DEFAULT_LINES = -1
        main = nntplib.NNTP("127.0.0.1", srv.port)
        nf = m.NNTPFile(main, nzb_utils.read_nzb(src)[0])
        out = []
        for h in b["hist"]:
            if h["op"] == "read":
                n = h["a"]
                if n == -1:
                    x = nf.read()
                else:
                    n = min(n * unit, total - nf.tell())
                    x = nf.read(n) if n else nf.read(0) if rng.random() < .3 else nf.read(-1) if nf.tell() == total else b""
                want = data[h["from"] * unit:min(total, h["to"] * unit)]
                if bytes(x) != want:
                    raise AssertionError("read(%d) at %d of %r returned %d bytes %r instead of %d bytes %r" % (
                        n, h["from"] * unit, b, len(x), bytes(x[:60]), len(want), want[:60]))
            else:
                off = h["a"] * unit
                at = {"set": 0, "cur": 1, "end": 2}[h["op"]]
                base = (0, nf.tell(), total)[at]
                if h["to"] >= 0:      # the last unit of the file may be cut short
                    off = min(total, h["to"] * unit) - base
                to = off + base
                try:
                    x = nf.seek(off, at)
                    if not 0 <= to <= total:
                        raise AssertionError("seek(%d, %d) to %d was accepted" % (off, at, to))
                    if x != to:
                        raise AssertionError("seek(%d, %d) returned %r, not %d" % (off, at, x, to))
                except IndexError:
                    if h["to"] >= 0 and 0 <= to <= total:
                        raise AssertionError("seek(%d, %d) to %d was refused" % (off, at, to))
            pos = h["to"]
            if pos >= 0 and nf.tell() != min(total, pos * unit):
                raise AssertionError("position %d instead of %d after %r" % (nf.tell(), min(total, pos * unit), h))
        if nf.file_size() != total:
            raise AssertionError("file size %r instead of %d" % (nf.file_size(), total))
        if not nf.stat_last_segment():
            raise AssertionError("the last article is there")
        fetched = {l[6:-1] for l in srv.log if l.startswith("BODY <")}
        need = {1}
        for h in b["hist"]:
            if h["op"] == "read" and h["to"] > h["from"]:
                # RAR volumes: the code may have a look at the header that follows
                more = 14 if b["rar"] else 0
                need.update(range(h["from"] // b["seg"] + 1, (h["to"] * unit - 1 + more) // (b["seg"] * unit) + 2))
        extra = [x for x in fetched if not (int(x[2:-2]) + 1) in need]
        if extra:
            raise AssertionError("articles %s were fetched, needed: %s" % (extra, sorted(need)))
        with open(result, "w") as h:
            h.write("ok")
    r = cli.run_child(fn, cwd=d, timeout=60)
    check(r.code == 0 and os.path.isfile(result), "history %r: exit %r: %s / output %s", b, r.code, r.err[-900:], r.out[-500:])
    return {"ops": len(b["hist"])}


PARTS = {"post": case_post, "yenc": case_yenc, "reader": case_reader}


def shapes(rng, n, sfvs, vols=(1, 2, 3)):
    out = {}
    while len(out) < n:
        s = dict(word=rng.choice(["main", "main", "sample", "extras", "proof", "subpack"]), sfv=rng.choice(sfvs), vols=rng.choice(vols),
                 casing=rng.choice(["same", "same", "sfvup", "postup"]), rank=rng.randrange(8))
        if s["sfv"] == "gap":
            s["vols"] = max(2, s["vols"])
        if s["sfv"] in ("no", "empty", "other", "gap"):
            s["casing"] = "same"
        out[repr(s)] = s
    return Set(list(out.values()))


def options(rng, n, **kw):
    out = {}
    for _ in range(n):
        o = dict(stat=rng.random() < .7, full=rng.random() < .3, group=rng.random() < .3, crc=rng.random() < .3, dry=False, cli=rng.random() < .3)
        o.update(kw)
        out[repr(o)] = o
    return Set(list(out.values()))


def layouts(ctx):
    """RarSet layouts by number of volumes: any, and those with an end block."""
    r = ctx.tlc("RarSet", constants=dict(MaxFiles=3, MaxUnits=3, Caps={1, 2, 3}, Namings={"old", "new", "num"}, RRs={"none", "old", "new"},
                Ends={"none", "plain", "crc", "full"}, Comments={"none", "cmt"}, Pads={True, False}, Stuffs={0}, Sources={"sfv"}, Sets={1}, MaxVols=4),
                constraint="Emit", invariants=["RoundTrip"], simulate=6000, depth=60)
    anyl, endl = {}, {}
    for b in r.behaviours:
        anyl.setdefault(len(b["vols"]), []).append(b)
        if b["cfg"]["end"] != "none" and not b["cfg"]["pad"] and all(any(t["t"] == "file" and t["len"] for t in v) for v in b["vols"]):
            endl.setdefault(len(b["vols"]), []).append(b)
    return anyl, endl


def run_post(ctx):
    rng = ctx.rng
    q = ctx.quick
    anyl, endl = layouts(ctx)
    kinds = ["nfo", "jpg", "proofjpg", "png", "bmp", "srs", "subsfv", "sjpg", "thumb", "poster", "smalljpg", "kerepng", "usc", "newz", "other"]
    extras = Set([dict(k=k, n=1) for k in kinds] + [dict(k="nfo", n=2), dict(k="jpg", n=2), dict(k="srs", n=2)])
    cases = []

    def take(bs, n, flawed):
        for b in ctx.sample(bs, n):
            pool = endl if flawed else anyl
            lay = [rng.choice(pool[s["vols"]]) for s in b["sets"]]
            cases.append({"b": b, "seed": "%s|%d" % (ctx.seed, len(cases)), "lay": lay})
    sim = 3000 if q else 20000
    good = ["ok", "ok", "ok", "no"]
    a = ctx.tlc("Usenet", constants=dict(Extras=extras, MaxExtras=4, SetShapes=shapes(rng, 40, good), MaxSets=3, Servers={1, 2}, FlawKinds=Set([]), MaxFlaws=0,
                Options=options(rng, 16), DupKinds={"none", "same", "worse", "better"}), constraint="Emit", invariants=INVS, simulate=sim, depth=60)
    take(a.behaviours, 300 if q else 2500, False)
    a = ctx.tlc("Usenet", constants=dict(Extras=extras, MaxExtras=2, SetShapes=shapes(rng, 40, good), MaxSets=2, Servers={1, 2, 3},
                FlawKinds={"missing", "noend", "crc", "empty", "nzb"}, MaxFlaws=2, Options=options(rng, 24), DupKinds={"none", "none", "same", "better"}),
                constraint="Emit", invariants=INVS, simulate=sim, depth=60)
    take(a.behaviours, 350 if q else 2800, True)
    rep = Set([dict(k=k, n=1) for k in ("ich", "zed", "kere", "twenty", "nfo", "jpg")])
    a = ctx.tlc("Usenet", constants=dict(Extras=rep, MaxExtras=2, SetShapes=shapes(rng, 40, ["ok", "no", "gap", "empty", "other"]), MaxSets=2, Servers={1},
                FlawKinds={"missing", "nzb"}, MaxFlaws=1, Options=Set(options(rng, 8).items + options(rng, 3, dry=True).items), DupKinds={"none"}),
                constraint="Emit", invariants=INVS, simulate=sim, depth=60)
    take(a.behaviours, 150 if q else 1200, True)
    ctx.replay(case_post, cases, "post", timeout=150)


def run_yenc(ctx):
    q = ctx.quick
    frames = Set([dict(part=p, total=t, yend=y, crc=c, check=k) for p in (True, False) for t in (True, False) for y in ("there", "none")
                  for c in ("right", "wrong", "none") for k in (True, False) if not (y == "none" and c != "right") and not (t and not p)])
    few = Set(frames.items[::5])
    allc = sorted(ENC) + ["other"]
    a = ctx.tlc("Yenc", constants=dict(Classes=set(allc), MaxBytes=2, Frames=frames, Want={"all", "part"}), constraint="Emit", invariants=["RoundTrip", "OneDot", "NoFrame"])
    bs = ctx.sample(a.behaviours, 20000 if q else 60000)
    a = ctx.tlc("Yenc", constants=dict(Classes={"dot", "eq", "nul", "at", "brace", "sp"} if q else {"dot", "eq", "nul", "at", "brace", "sp", "n", "y", "other"},
                                       MaxBytes=4, Frames=Set([dict(part=True, total=True, yend="there", crc="right", check=True)]), Want={"all"}),
                constraint="Emit", invariants=["RoundTrip", "OneDot", "NoFrame"])
    bs += ctx.sample(a.behaviours, 20000 if q else 120000)
    a = ctx.tlc("Yenc", constants=dict(Classes=set(allc), MaxBytes=40, Frames=frames, Want={"all", "part"}), constraint="Emit",
                invariants=["RoundTrip", "OneDot", "NoFrame"], simulate=3000 if q else 40000, depth=80)
    bs += ctx.sample(a.behaviours, 3000 if q else 40000)
    cases = [{"bs": bs[i:i + 500], "seed": "%s|%d" % (ctx.seed, i)} for i in range(0, len(bs), 500)]
    ctx.replay(case_yenc, cases, "yenc")


def run_reader(ctx):
    q = ctx.quick
    inv = ["Exact", "Needed"]
    # the old way of completing articles is refuted by the specification
    bad = ctx.tlc("NntpFile", constants=dict(Seg=2, MaxSegs=3, MaxOps=3, Rar={True, False}, Prefixes={0, 1, 2}, Faulty="first"), invariants=["Exact"], expect_fail=True)
    if bad.accepted:
        raise RuntimeError("NntpFile.tla does not see the fault it was made for")
    a = ctx.tlc("NntpFile", constants=dict(Seg=2, MaxSegs=3, MaxOps=3, Rar={True, False}, Prefixes={0, 1, 2}, Faulty="none"), constraint="Emit", invariants=inv)
    bs = ctx.sample(list({repr(b): b for b in a.behaviours}.values()), 250 if q else 1800)
    a = ctx.tlc("NntpFile", constants=dict(Seg=3, MaxSegs=5, MaxOps=8, Rar={True, False}, Prefixes={0, 3}, Faulty="none"), constraint="Emit", invariants=inv,
                simulate=400 if q else 5000, depth=12)
    bs += ctx.sample(list({repr(b): b for b in a.behaviours}.values()), 250 if q else 2400)
    ctx.replay(case_reader, [{"b": b, "seed": "%s|%d" % (ctx.seed, i)} for i, b in enumerate(bs)], "reader")


def run(ctx):
    ctx.assumptions = ["articles of a file have the same size (but the last)"]
    run_post(ctx)
    run_yenc(ctx)
    run_reader(ctx)
