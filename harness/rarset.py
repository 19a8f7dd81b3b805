"""Concretisation of the layouts generated by spec/RarSet.tla into real RAR volumes."""
import os
import random
import zlib
from . import rarfmt as R

UNITS_SMALL = [1, 2, 3, 7, 100, 511, 512, 513, 1000, 1024]
UNITS_BIG = [4096, 32768, 65535, 65536, 65537, 70001, 131072, 131073]


class Volume(object):
    def __init__(self, name, data, tokens):
        self.name, self.data, self.tokens = name, data, tokens   # tokens: (kind, header bytes, srr bytes)


class Concrete(object):
    """One RAR set: .volumes, .files {archive name: bytes} and what an SRR must contain."""


NAME_STYLES = ["plain", "dirs", "unicode", "latin1", "mixed"]


def file_name(style, idx, setnr, isdir, rng, ext):
    base = "%s%d_%d" % (rng.choice(["movie", "Track", "a b", "x.y-z"]), setnr, idx)
    if style == "dirs" and rng.random() < .7:
        base = rng.choice(["sub\\", "Sub Dir\\deeper\\"]) + base
    uni = False
    if style == "unicode":
        base += "_\u4e2d\u20ac\u00e9"
        uni = True
    elif style == "latin1":
        base += "_\u00e9\u00df"
        uni = True
    elif style == "mixed" and rng.random() < .5:
        uni = True
    return base + ("" if isdir else ext), uni


def volume_name(naming, base, idx, total, digits):
    """idx from 1"""
    if naming == "new":
        if total == 1:
            return base + ".rar"
        return "%s.part%0*d.rar" % (base, digits, idx)
    if naming == "num":
        return "%s.%03d" % (base, idx)
    if idx == 1:
        return base + ".rar"
    n = idx - 2
    return "%s.%s%02d" % (base, chr(ord("r") + n // 100), n % 100)


def concretise(beh, seed, setnr=1, base=None, max_total=700000, units=None, exts=None, exts_by=None, zeros=True, alike=False):
    rng = random.Random("%s|%s|%d" % (seed, repr(sorted(beh["cfg"].items())) + repr(beh["files"]), setnr))
    cfg = beh["cfg"]
    nvol = len(beh["vols"])
    c = Concrete()
    c.rng = rng
    c.base = base or rng.choice(["rel", "Release.Name-GRP", "x-y_z", "grp-movie"]) + (".cd%d" % setnr)
    digits = max(len(str(nvol)), rng.choice([1, 2, 3]))
    # unit sizes per file
    c.files = {}
    c.order = []
    c.dirs = []
    style = rng.choice(NAME_STYLES)
    alike = alike and rng.random() < .3
    unit_len = {}
    budget = max_total
    names = {}
    for i, f in enumerate(beh["files"], 1):
        ext = rng.choice(exts or [".mkv", ".avi", ".bin", ".txt", ".mp3"])
        if exts_by:
            ext = exts_by[i - 1]
        name, uni = file_name(style, i, setnr, f["kind"] == "dir", rng, ext)
        if alike and i > 1:                     # names that only differ in the path or at their ends
            first = names[1][0]
            near = ["sub\\" + first, "sub\\deeper\\" + first, "x" + first, first + "x", first.rsplit("\\", 1)[-1][1:], "sub_" + first,
                    first.swapcase(), first.upper()]
            near = [n for n in near if n not in c.files and n not in c.dirs and n + "\\" not in c.dirs]
            name, uni = rng.choice(near) if f["kind"] != "dir" else name, uni or names[1][1]
        names[i] = (name, uni)
        lens = []
        for u in range(f["size"]):
            pool = units or (UNITS_SMALL if rng.random() < .6 else UNITS_BIG)
            n = rng.choice(pool)
            if n > budget:
                n = rng.choice(UNITS_SMALL)
            budget -= n
            lens.append(n)
        unit_len[i] = lens
        data = R.pattern("%s|%d|%d|%s" % (seed, setnr, i, lens), sum(lens))
        if rng.random() < .15 and zeros:
            data = bytes(len(data))            # all zero content
        if f["kind"] == "dir":
            c.dirs.append(name)
        else:
            c.files[name] = data
        c.order.append((name, f["kind"]))
    ftime = rng.choice([0x3c21a5b3, 0, 0x21a5b3c2 & 0x7fffffff])
    host = rng.choice([2, 2, 3])
    large = rng.random() < .15
    ext = rng.random() < .3
    salt = None
    sectors = rng.choice([1, 2, 5, 11])
    c.unit_len = unit_len
    c.volumes = []
    end_kind = cfg["end"]
    multi = nvol > 1
    nosize = {}
    first_flag = rng.random() < .8
    for k, toks in enumerate(beh["vols"], 1):
        data = b""
        recs = []
        for t in toks:
            kind = t["t"]
            payload = b""
            if kind == "marker":
                hdr = R.MARKER
            elif kind == "main":
                hdr = R.main_header(multi, cfg["naming"] == "new", first_flag and k == 1, cfg["rr"] != "none",
                                    solid=rng.random() < .2, lock=rng.random() < .1)
            elif kind == "cmt":
                hdr = R.comment_newsub(rng)
            elif kind == "old":
                hdr = rng.choice([R.old_comment, R.old_av, R.av_sub_79])(rng)
            elif kind in ("file", "dir"):
                name, uni = names[t["f"]]
                whole = c.files.get(name, b"")
                lens = unit_len[t["f"]]
                a = sum(lens[:t["pos"]])
                n = sum(lens[t["pos"]:t["pos"] + t["len"] - t["zero"]])
                payload = whole[a:a + n]
                crc = zlib.crc32(payload if t["after"] else whole)
                unpacked = len(whole)
                if cfg["stuff"]:
                    if t["zero"]:
                        payload += bytes(t["zero"] * rng.choice(UNITS_SMALL + [65535, 65536, 65537, 140001]))
                    unpacked = nosize.setdefault(name, rng.choice([unpacked, unpacked, 0xffffffff]))
                et = b""
                if ext:
                    et = b"\x00\x80" if k % 2 else b"\x00\xb0\x11\x22\x33"
                hdr = R.file_header(name, len(payload), unpacked, crc, t["before"], t["after"], kind == "dir", host=host,
                                    ftime=ftime, ver=20, attr=0x10 if kind == "dir" else 0x20, large=large, exttime=et,
                                    dict_bits=rng.choice([0, 0x60, 0xc0]), unicode_=uni,
                                    uni_rng=random.Random("%s|%s" % (seed, name)))
            elif kind == "rrnew":
                hdr, payload = R.rr_new(data, sectors)
            elif kind == "rrold":
                hdr, payload = R.rr_old(data, sectors)
            elif kind == "end":
                hdr = R.end_block(end_kind, k < nvol, k - 1, data)
            elif kind == "pad":
                hdr = rng.choice([b"\0", b"\0" * 6, b"\0" * 7, b"\0" * 100, b"padding bytes!" * 5])
            else:
                raise ValueError(kind)
            data += hdr + payload
            if kind == "pad":
                srr = R.srr_padding(hdr)
            else:
                srr = hdr
            recs.append((kind, hdr, srr, len(payload)))
        c.volumes.append(Volume(volume_name(cfg["naming"], c.base, k, nvol, digits), data, recs))
    c.recovery_size = sum(r[3] for v in c.volumes for r in v.tokens if r[0] in ("rrnew", "rrold"))
    c.recovery = {"none": None, "old": "Protect!", "new": "Protect+"}[cfg["rr"]]
    return c


def write_set(c, folder):
    os.makedirs(folder, exist_ok=True)
    for v in c.volumes:
        with open(os.path.join(folder, v.name), "wb") as f:
            f.write(v.data)


def write_files(c, folder, flat=False):
    for name, data in c.files.items():
        parts = name.split("\\")
        p = os.path.join(folder, parts[-1]) if flat else os.path.join(folder, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def sfv_text(c, rng, entries=None, newline=None, comments=True):
    lines = []
    for v in c.volumes:
        lines.append("%s %s" % (v.name, ("%08x" if rng.random() < .5 else "%08X") % zlib.crc32(v.data)))
    for n, crc in (entries or []):
        lines.append("%s %08x" % (n, crc))
    rng.shuffle(lines)
    nl = newline or rng.choice(["\r\n", "\n"])
    com = ["; made by x", ";second"] if comments else []
    return (nl.join(com + lines) + nl).encode("latin-1")


def srr_volume_bytes(c, prefix=""):
    """Exact bytes of the RAR part of the SRR for this set."""
    out = b""
    for v in c.volumes:
        out += R.srr_rar(prefix + v.name)
        for kind, hdr, srr, n in v.tokens:
            out += srr
    return out


def read_tree(root):
    out = {}
    for d, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    out[rel] = fh.read()
        for x in dn:
            rel = os.path.relpath(os.path.join(d, x), root)
            out.setdefault(rel + "/", None)
    return out


def diff_tree(a, b):
    """Human-readable difference of two read_tree results (directories ignored)."""
    fa = {k: v for k, v in a.items() if not k.endswith("/")}
    fb = {k: v for k, v in b.items() if not k.endswith("/")}
    out = []
    for k in sorted(set(fa) | set(fb)):
        if k not in fb:
            out.append("-" + k)
        elif k not in fa:
            out.append("+%s(%d)" % (k, len(fb[k])))
        elif fa[k] != fb[k]:
            x, y = fa[k], fb[k]
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            out.append("!%s(len %d/%d, differs at %d)" % (k, len(x), len(y), i))
    return " ".join(out)
