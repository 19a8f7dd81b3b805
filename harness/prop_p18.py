"""P18: NZB files.  Folders of NZB documents generated by spec/Nzb.tla are written down in the spellings found in the wild,
read by every parser, written again, merged, split, filtered and renamed by the real tools."""
import datetime
import io
import os
import random
import re
import time
from xml.sax.saxutils import escape, quoteattr
from . import cli
from .core import Failure, check, same, stable_hash, REPO
from .prop_p13 import put, tree_state
from .tlc import Set

INVS = ["SplitLosesNothing", "SplitIsPartition", "MergeLosesNothing", "SplitOfMerge", "SampleIsPart"]
RELS = {1: "Some.Long.Movie.Name.2009.PROPER.720p.BluRay.x264-GRP", 2: "Another.Show.S01E02.HDTV.XviD-aBc",
        3: "Artist_-_The_Longest_Album_Title_Ever-CD-2011-xYz"}
EXT = {"rar": "r07", "sfv": "sfv", "nfo": "nfo", "par": "avi.vol003+4.par2", "mp3": "mp3"}
FOLD = {"Europe/Brussels": 1288485000, "America/New_York": 1289107800, "Australia/Sydney": 1270311000}   # 1 h before/after: same local time
UNNAMED = ("odd", "mp3", "m2ts")     # kinds of posts nzb_split knows no base name of: reported and left out
NS = "http://www.newzbin.com/DTD/2003/nzb"


def read(p):
    with open(p, "rb") as f:
        return f.read()


def words(rng, enc, extra=""):
    """Text with everything that needs care in XML (and no quotes, which delimit the name)."""
    pool = "abcXYZ019._- &<>'()[]{}#;@$%+!~" + extra + ("\u00e9\u00f6\u00df" if enc != "us-ascii" else "") + ("\u20ac\u6f22\U0001f600" if enc == "utf-8" else "")
    return "".join(rng.choice(pool) for _ in range(rng.randrange(1, 12)))


def subject(rng, post, name, enc, k):
    """(subject, name the helper recovers)."""
    rel = RELS[post["rel"]]
    st = post["style"]
    if st == "quoted":
        pre = rng.choice(["[:SEK9:][alt.x]-[:%s:]-[%d/61] - ", "[%s] [%d/61] - ", "(%s) [%d/61] ", "[ %s ] [%d/61] - ", "[%d/61] [ %s ] "])
        pre = pre % ((rel, k) if pre.index("%s") < pre.index("%d") else (k, rel))
        return pre + '"%s"' % name + rng.choice([" yEnc (1/9)", " (01/99)", " - 45,12 MB yEnc (1/3)", " yEnc"]), name
    if st == "double":
        return "[ %s ]-[%d/9] \"\"%s\"\" yEnc (1/2)" % (rel, k, name), name
    if st == "plain":
        name = re.sub(r"[^A-Za-z0-9._+-]", "", name)
        return rng.choice(["[ %s ]- here it is:  %s (1/2)", "[ %s ]-[01/10]-%s (12/20)", "[ %s ] %s (1/1)"]) % (rel, name), name
    s = "[ %s ]" % rel
    return s, s


class Post(object):
    def __init__(self, rng, post, enc, k, tz):
        self.a = post
        self.k = k
        kind = post["kind"]
        stem = "grp-%s%d" % (re.sub("[^a-z]", "", RELS[post["rel"]].lower())[:4], post["rel"])
        if post["style"] in ("quoted", "double") and rng.random() < .3:
            stem += rng.choice([" and more", "(1)", "[2]", "-", "&co", "'s", "\u00e9"])
        self.name = stem + "." + EXT.get(kind, kind)
        if kind == "odd":
            self.name = stem
        self.subject, self.name = subject(rng, post, self.name, enc, k)
        self.poster = rng.choice(["Joe <joe@x.example>", "a@b.c (A & B)", "r&b; <r@x>", "uncle eric <e@x>", '"quoted" <q@x>', words(rng, enc)])
        base = rng.choice([1071674882, 1265000000 + rng.randrange(10 ** 8)])
        if tz in FOLD:
            base = rng.choice([base, FOLD[tz], FOLD[tz] + 3600])
        self.date = base
        self.groups = [rng.choice(["alt.binaries.x264", "a.b.c", "alt.binaries.teevee", "de.x"]) + (str(i) if i else "") for i in range(1 + (k + post["segs"]) % 3)]
        size = 700000 if post["big"] else 400000
        self.segs = []
        for i in range(post["segs"]):
            b = size // post["segs"] + (1 if i == 0 else 0)
            self.segs.append((b, i + 1, "%s%d.%d$@%s" % (words(rng, enc).replace(" ", "_").strip("_") or "x", k, i, rng.choice(["news.example.com", "a&b", "x"]))))
        if rng.random() < .3:
            rng.shuffle(self.segs)

    def want(self):
        return (self.poster, self.date, self.subject, self.groups, self.segs)


def document(rng, posts, enc, damage=""):
    """The NZB as bytes.  damage: the ways in which posting programs wrote bad XML."""
    nl = rng.choice(["\n", "\r\n"]) if not damage else "\n"
    ind = rng.choice(["", " ", "\t"])

    def esc(t, attr=False):
        if damage == "amp":
            t = (t.replace("&", "\0").replace("<", "&lt;").replace(">", "&gt;").replace('"', rng.choice(["&quot;", "&#34;", "&#x22;"])).replace("\0", "&"))
            if rng.random() < .4:   # &#xE9; and the like
                t = "".join(rng.choice(["&#x%X;", "&#x%x;", "&#%d;"]) % ord(c) if ord(c) > 126 else c for c in t)
            return t
        t = escape(t)
        if attr:
            t = t.replace('"', rng.choice(["&quot;", "&#34;", "&#x22;"]))
        if rng.random() < .2:
            t = "".join("&#%d;" % ord(c) if ord(c) > 126 else c for c in t)
        return t

    def attrs(pairs):
        pairs = list(pairs)
        if not damage:
            rng.shuffle(pairs)
        return "".join(' %s="%s"' % (k, esc(str(v), True)) for k, v in pairs)
    o = ['<?xml version="1.0" encoding="%s" ?>' % enc if rng.random() < .9 or enc != "utf-8" else '<?xml version="1.0"?>']
    if rng.random() < .6:
        o.append('<!DOCTYPE nzb PUBLIC "-//newzBin//DTD NZB 1.0//EN" "http://www.newzbin.com/DTD/nzb/nzb-1.0.dtd">')
    if rng.random() < .4 or damage in ("twice", "noend"):
        o.append("<!-- Generated by newsmangler at 2009-05-31 20:42:43 UTC -->")
    o.append('<nzb xmlns="%s">' % NS)
    if rng.random() < .2:
        o.append('<head><meta type="category">TV</meta></head>')
    for p in posts:
        o.append(ind + "<file%s>" % attrs([("poster", p.poster), ("date", p.date), ("subject", p.subject)]))
        o.append(ind * 2 + "<groups>")
        o += [ind * 3 + "<group>%s</group>" % esc(g) for g in p.groups]
        o.append(ind * 2 + "</groups>")
        o.append(ind * 2 + "<segments>")
        o += [ind * 3 + "<segment%s>%s</segment>" % (attrs([("bytes", b), ("number", n)]), esc(m)) for b, n, m in p.segs]
        o.append(ind * 2 + "</segments>")
        o.append(ind + "</file>")
    if damage != "noend":
        o.append("</nzb>")
    if damage == "twice":
        o.append("</nzb>")
    data = (nl.join(o) + nl).encode(enc)
    if damage == "nul":
        cut = data.rindex(b"<file") if b"<file" in data else len(data)
        data = data[:cut] + b"\0" + data[cut:] + b"\0\0"
        for _ in range(rng.choice([0, 1, 5, 50])):
            cut = rng.randrange(len(data))
            data = data[:cut] + b"\0" + data[cut:]
    return data


def as_tuple(f):
    return (f.poster, int(f.date.timestamp()), f.subject, list(f.groups), [(s.bytes, s.number, s.message_id) for s in f.segments])


def strict(data):
    """An NZB read with nothing but ElementTree: what other programs see."""
    from xml.etree import ElementTree as E
    root = E.fromstring(data)
    check(root.tag == "{%s}nzb" % NS, "the root element is %s", root.tag)
    out = []
    for f in root:
        check(f.tag == "{%s}file" % NS, "element %s in the NZB", f.tag)
        g = [x.text for x in f.findall("./{%s}groups/{%s}group" % (NS, NS))]
        s = [(int(x.get("bytes")), int(x.get("number")), x.text) for x in f.findall("./{%s}segments/{%s}segment" % (NS, NS))]
        out.append((f.get("poster"), int(f.get("date")), f.get("subject"), g, s))
    return out


def same_posts(got, want, what):
    if len(got) != len(want):
        raise Failure("%s: %d posts, specification %d: %r / %r" % (what, len(got), len(want), [g[2] for g in got], [w[2] for w in want]))
    for i, (g, w) in enumerate(zip(got, want)):
        for n, a, b in zip(("poster", "date", "subject", "groups", "segments"), g, w):
            same(a, b, "%s, post %d, %s" % (what, i, n))


def script(name, argv, cwd):
    def fn():
        import runpy
        import sys
        p = os.path.join(os.environ.get("VERIF_REPO", REPO), "usenet", name + ".py")
        sys.path.insert(0, os.path.dirname(p))
        sys.argv = [p] + list(argv)
        runpy.run_path(p, run_name="__main__")
    return cli.run_child(fn, cwd=cwd)


def concrete(case):
    rng = random.Random(stable_hash(case))
    b = case["b"]
    tz = rng.choice(["UTC", "UTC", "Europe/Brussels", "America/New_York", "Australia/Sydney"])
    enc = rng.choice(["utf-8", "utf-8", "iso-8859-1"])
    docs, k = [], 0
    for d in b["docs"]:
        ps = []
        for p in d:
            k += 1
            ps.append(Post(rng, p, enc, k, tz))
        docs.append(ps)
    return rng, b, tz, enc, docs


def case_nzb(case, d):
    rng, b, tz, enc, docs = concrete(case)
    os.environ["TZ"] = tz
    time.tzset()
    try:
        return {"rewrite": do_rewrite, "merge": do_merge, "split": do_split, "sample": do_sample,
                "rename": do_rename, "select": do_select}[b["op"]](rng, b, enc, docs, d)
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()


def do_rewrite(rng, b, enc, docs, d):
    import nzb_utils as N
    import pynzb
    for i, posts in enumerate(docs):
        want = [p.want() for p in posts]
        damage = rng.choice(["", "", "amp", "twice", "noend", "nul"])
        data = document(rng, posts, enc, damage)
        if not posts and not damage and rng.random() < .5:
            data = b""     # an empty file
        p = os.path.join(d, "n%d.nzb" % i)
        put(p, data)
        got = N.read_nzb(p)
        same_posts([as_tuple(f) for f in got], want, "reading (%s%s)" % (enc, ", " + damage if damage else ""))
        same(read(p), data, "the NZB that was read")
        if not damage and data:
            for cls in (pynzb.ExpatNZBParser, pynzb.ETreeNZBParser, pynzb.LXMLNZBParser):
                if cls is not None:
                    same_posts([as_tuple(f) for f in cls().parse(data)], want, cls.__name__)
        same([n for n, _ in N.list_filenames(p)], [x.name for x in posts], "names listed for %r" % [x.subject for x in posts])
        for x in posts:
            same(N.parse_name(x.subject), x.name, "name in the subject %r" % x.subject)
        # written again
        doc = N.empty_nzb_document()
        for f in got:
            N.add_file(doc, f)
        for how in (N.get_xml, N.get_pretty_xml):
            out = how(doc)
            out = out if isinstance(out, bytes) else out.encode("utf-8")
            same_posts(strict(out), want, "written with %s" % how.__name__)
            q = os.path.join(d, "w.nzb")
            put(q, out)
            same_posts([as_tuple(f) for f in N.read_nzb(q)], want, "read again (%s)" % how.__name__)
    return {"posts": sum(map(len, docs))}


def do_merge(rng, b, enc, docs, d):
    rel = os.path.join(d, "in", "Rel-GRP")
    names = []
    for i, posts in enumerate(docs):
        n = "rel" + "x" * i + rng.choice([".nzb", ".nzb", ".NZB"])
        names.append(n)
        put(os.path.join(rel, n), document(rng, posts, enc))
    others = {}
    for n in rng.sample(["a.nfo", "x.nzb.txt", "other/a.nzb"], 2):
        others[n] = b"something else"
        put(os.path.join(rel, n), others[n])
    want = [p.want() for ps in docs for p in ps]
    alone = read(os.path.join(rel, names[0]))
    cwd = rng.choice([d, os.path.join(d, "in")])
    r = script("nzb_merge", [os.path.join(d, "in") if cwd == d else "."], cwd)
    check(r.code == 0, "nzb_merge: %s", r)
    got = sorted(os.path.relpath(os.path.join(x, f), rel) for x, _, fs in os.walk(rel) for f in fs)
    same(got, sorted([names[0]] + list(others)), "files after the merge")
    for n, data in others.items():
        same(read(os.path.join(rel, n)), data, n)
    m = read(os.path.join(rel, names[0]))
    if len(docs) == 1:
        same(m, alone, "the only NZB of the folder")
    else:
        same_posts(strict(m), want, "merged NZB")
    return {"posts": len(want)}


def do_split(rng, b, enc, docs, d):
    src = os.path.join(d, "all.nzb")
    data = document(rng, docs[0], enc)
    put(src, data)
    out = os.path.join(d, "out")
    os.mkdir(out)
    by = {}
    for p in docs[0]:
        if p.a["kind"] not in UNNAMED:
            by.setdefault(RELS[p.a["rel"]] + ".nzb", []).append(p.want())
    # posts the tool can not name a file of are reported, the others have to be there
    argv = [src, out]
    r = script("nzb_split", argv, d)
    check(r.code == 0, "nzb_split: %s", r)
    for p in docs[0]:
        if p.a["kind"] in UNNAMED:
            if "Failed: " + p.subject not in r.out:
                by = None
                break
    same(read(src), data, "the NZB that was split")
    if not by and os.path.exists(os.path.join(out, ".nzb")):
        same(read(os.path.join(out, ".nzb")), b"", "the NZB without posts")
        os.unlink(os.path.join(out, ".nzb"))
    if by is not None:
        same(sorted(os.listdir(out)), sorted(by), "NZB files of the split")
        for n, want in by.items():
            same_posts(strict(read(os.path.join(out, n))), want, "split NZB %s" % n)
    # whatever the files are called: each post is in one of them or reported
    have = [x for n in os.listdir(out) for x in strict(read(os.path.join(out, n)))]
    for p in docs[0]:
        n = sum(h == p.want() for h in have)
        check(n == 1 or (n == 0 and "Failed: " + p.subject in r.out), "post %r is in %d of the split files %s", p.subject, n, os.listdir(out))
    same(len(have), len([p for p in docs[0] if p.want() in have]), "posts in the split files")
    return {"posts": len(docs[0])}


def do_sample(rng, b, enc, docs, d):
    src = os.path.join(d, "in", "all.nzb")
    data = document(rng, docs[0], enc)
    put(src, data)
    flags = {"avi": "-a", "mkv": "-m", "mp4": "-4", "wmv": "-w", "vob": "-v", "m2ts": "-2"}
    argv = [rng.choice([src, os.path.dirname(src)])] + [flags[e] for e in b["arg"]["exts"]]
    if b["arg"]["max"]:
        argv += ["-s", "500000"]
    out = os.path.join(d, "in", "samples")
    if rng.random() < .5:
        out = os.path.join(d, "other")
        argv += ["-o", out]
    r = script("nzb_sample_extract", argv, d)
    check(r.code == 0, "nzb_sample_extract: %s", r)
    same(read(src), data, "the NZB with the samples")
    want = [p.want() for p in docs[0] if p.a in b["sampled"]]
    same(len(want), len(b["sampled"]), "posts of samples")
    f = os.path.join(out, "all.nzb")
    if not want:
        check(not os.path.exists(f), "an NZB without samples is written")
    else:
        check(os.path.exists(f), "no NZB for the samples: %s", r)
        same_posts(strict(read(f)), want, "sample NZB")
    return {"posts": len(want)}


def do_rename(rng, b, enc, docs, d):
    ind = os.path.join(d, "in")
    datas = []
    for i, posts in enumerate(docs):
        data = document(rng, posts, enc)
        datas.append(data)
        put(os.path.join(ind, "bad name %d.nzb" % i), data)
    put(os.path.join(ind, "keep.txt"), b"text")
    if rng.random() < .3:
        for x in ("", "music", "other"):
            os.makedirs(os.path.join(ind, "processed", x), exist_ok=True)
    r = script("nzb_rename", [ind], d)
    check(r.code == 0, "nzb_rename: %s", r)
    same(read(os.path.join(ind, "keep.txt")), b"text", "another file")
    left = {}
    for x, _, fs in os.walk(ind):
        for f in fs:
            p = os.path.join(x, f)
            left.setdefault(read(p), []).append(os.path.relpath(p, ind))
    first = [ps[0] for ps in docs]
    for i, posts in enumerate(docs):
        check(len(left.get(datas[i], [])) == datas.count(datas[i]), "NZB %d with %d posts is lost: %s", i, len(posts), sorted(sum(left.values(), [])))
        p = left[datas[i]][0]
        twin = [j for j in range(len(docs)) if j != i and first[j].a["rel"] == first[i].a["rel"] and b["music"][j] == b["music"][i]]
        sub = "music" if b["music"][i] else "other"
        if not twin and first[i].a["style"] == "quoted":
            n = RELS[first[i].a["rel"]]
            if "(" + n + ")" in first[i].subject:
                n = "(" + n + ")"
            same(p, os.path.join("processed", sub, n + ".nzb"), "new name of %r" % first[i].subject)
        elif not twin:
            check(p.startswith(os.path.join("processed", sub) + os.sep) or "bad name" in p, "NZB %d is now %s", i, p)
    return {"posts": sum(map(len, docs))}


def do_select(rng, b, enc, docs, d):
    ind = os.path.join(d, "in")
    now = time.time()
    lo = rng.randrange(100, 2000)
    hi = lo + rng.randrange(2, 400)
    names, eric, before = [], [], {}
    for i, posts in enumerate(docs):
        days = rng.choice([lo - 5, lo, lo + 1, hi - 1, hi, hi + 5, (lo + hi) // 2])
        posts[0].date = int(now - days * 86400 - 43200)
        n = "n\u00e9%d.nzb" % i if rng.random() < .3 else "n%d.nzb" % i
        before[n] = document(rng, posts, enc)
        put(os.path.join(ind, n), before[n])
        if lo < days < hi:
            names.append(n)
        if any("uncle eric" in p.poster for p in posts):
            eric.append(n)
    put(os.path.join(ind, "x.txt"), b"no nzb")
    if rng.random() < .4:
        r = script("nzb_ue", [ind], d)
        check(r.code == 0, "nzb_ue: %s", r)
        same(sorted(r.out.split()), sorted(eric), "NZB files of uncle eric")
        out = None
    else:
        out = os.path.join(d, "moved") if rng.random() < .5 else None
        r = script("nzb_age", ["%d-%d" % (lo, hi), ind] + (["-o", out] if out else []), d)
        check(r.code == 0, "nzb_age: %s", r)
        if not out:
            same(sorted(r.out.split("\n")[1:-1]), sorted(names), "NZB files of %d to %d days" % (lo, hi))
    for n, data in before.items():
        p = os.path.join(out if out and n in names else ind, n)
        check(os.path.isfile(p), "%s is not in %s", n, os.path.dirname(p))
        same(read(p), data, "the listed NZB " + n)
    return {"posts": sum(map(len, docs))}


PARTS = {"nzb": case_nzb}


def run(ctx):
    ctx.assumptions = ["texts without control characters; NZB documents in the NZB name space; groups and message ids not empty",
                       "one quoted name in a subject, or an unquoted one without blanks before the (1/2) part"]
    kinds = ["rar", "sfv", "nfo", "avi", "mkv", "mp4", "wmv", "vob", "m2ts", "par", "mp3"]
    styles = ["quoted", "quoted", "double", "plain", "none"]
    rng = ctx.rng

    def pick(n, **kw):
        s = {}
        while len(s) < n:
            p = dict(rel=rng.randrange(1, 4), kind=rng.choice(kinds), style=rng.choice(styles), segs=rng.randrange(1, 4), big=rng.random() < .5)
            p.update({k: (v() if callable(v) else v) for k, v in kw.items()})
            if p["style"] == "none":
                p["kind"] = "odd"
            s[repr(p)] = p
        return list(s.values())
    exts = Set([Set([]), Set(["avi"]), Set(["mkv", "mp4"]), Set(["vob", "m2ts", "wmv"]), Set(["avi", "mkv", "mp4", "wmv", "vob", "m2ts"])])
    q = ctx.quick
    cases = []

    def take(bs, n):
        # the same number of every operation
        by = {}
        for b in bs:
            by.setdefault(b["op"], []).append(b)
        for k in sorted(by):
            for b in ctx.sample(by[k], n):
                cases.append({"b": b, "n": len(cases)})
    a = ctx.tlc("Nzb", constants=dict(Posts=Set(pick(7)), MaxDocs=2, MaxPosts=2, Ops={"rewrite", "merge", "sample", "rename", "select"}, ExtSets=exts),
                constraint="Emit", invariants=INVS)
    take(a.behaviours, 120 if q else 1500)
    a = ctx.tlc("Nzb", constants=dict(Posts=Set(pick(3, rel=lambda: 1, style="quoted") + pick(3, rel=lambda: 2, style="quoted") + pick(1)), MaxDocs=1,
                                      MaxPosts=5, Ops={"split"}, ExtSets=exts), constraint="Emit", invariants=INVS)
    take(a.behaviours, 250 if q else 3000)
    a = ctx.tlc("Nzb", constants=dict(Posts=Set(pick(40)), MaxDocs=4, MaxPosts=14, Ops={"rewrite", "merge", "split", "sample", "rename", "select"}, ExtSets=exts),
                constraint="Emit", invariants=INVS, simulate=2000 if q else 20000, depth=70)
    take(a.behaviours, 120 if q else 1500)
    ctx.replay(case_nzb, cases, "nzb")
