"""Bytes for the abstract SRR parts of spec/SrrFile.tla, and an independent SRR parser that
projects real files back to parts."""
import random
import struct
import zlib
from . import rarfmt as R


def content(d, name=""):
    """Bytes of content id d (0 = empty)."""
    if d == 0:
        return b""
    r = random.Random("content%d" % d)
    n = {1: 10, 2: 1, 3: 3000, 4: 70000, 5: 65536}.get(d, r.randrange(1, 400))
    if name.lower().endswith(".sfv"):
        return b""
    return r.randbytes(n)


_vol_cache = {}


KEPT = (7, 8)


def vol_blocks(name, d):
    """[(bytes in the SRR, size in the original volume, kind, info)] after the SrrRarFile block of variant d."""
    key = (name, d)
    if key in _vol_cache:
        return _vol_cache[key]
    r = random.Random("vol%s%d" % (name, d))
    out = [(R.MARKER, 7, "marker", None), (R.main_header(True, False, True, d in (1, 2)), 13, "main", None)]

    def fileblk(fn, size, crc, before=False, after=False, **kw):
        h = R.file_header(fn, size, kw.pop("unp", size), crc, before, after, **kw)
        out.append((h, len(h) + size, "file", (fn, size, crc)))
    fn = "arch_%s.mkv" % name.replace("/", "_")
    if d == 0:
        fileblk(fn, 5000, 0x11223344)
    elif d == 1:
        fileblk(fn, 700, 0x0000ABCD, after=False, large=True)
        h, data = R.rr_new(b"x" * 720, 2)
        out.append((h, len(h) + len(data), "rr", ("Protect+", len(data))))
    elif d == 2:
        fileblk("dir\\" + fn, 123456, 0xFEDCBA98, exttime=b"\x00\x80")
        h, data = R.rr_old(b"x" * 2000, 1)
        out.append((h, len(h) + len(data), "rr", ("Protect!", len(data))))
    elif d == 3:
        fileblk("second\\%s" % fn, 65536, 0x1, unicode_=True)
        fileblk("empty_%s.txt" % name.replace("/", "_"), 0, 0)
    elif d == 4:
        c = R.comment_newsub(r)
        out.append((c, len(c), "cmt", None))
        fileblk(fn, 1, 0xFFFFFFFF)
    elif d == 6:
        fileblk("adir", 0, 0, directory=True, attr=0x10)
        fileblk(fn, 10, 0x12)
    elif d in (7, 8):                         # the recovery record is kept in the SRR
        fileblk(fn, 900, 0x77)
        h, data = (R.rr_new if d == 7 else R.rr_old)(b"y" * 950, 2)
        out.append((h + data, len(h) + len(data), "rr", ("Protect+" if d == 7 else "Protect!", len(data))))
    else:
        pass                                  # d = 5: a volume without any file block
    if d != 5:
        e = R.end_block(["plain", "crc", "full"][d % 3], False, 0, b"zz")
        out.append((e, len(e), "end", None))
    if d in (0, 3):
        pad = b"\0" * 9
        out.append((R.srr_padding(pad), 9, "pad", None))
    _vol_cache[key] = out
    return out


def part_bytes(p, data_of=content):
    k, n, d = p["k"], p["n"], p["d"]
    if k == "app":
        return R.srr_header(n)
    if k == "st":
        return R.srr_stored(n, data_of(d, n))
    if k == "vol":
        return R.srr_rar(n, d not in KEPT) + b"".join(b[0] for b in vol_blocks(n, d))
    if k == "oso":
        return R.srr_oso(n, 131072 + d, struct.pack("<Q", 0x0123456789abcdef ^ (d * 0x1111)))
    raise ValueError(k)


def srr_bytes(parts, data_of=content):
    return b"".join(part_bytes(p, data_of) for p in parts)


class ParseError(Exception):
    pass


def split(data):
    """Independent top-level parse of an SRR -> [(kind, name, bytes of the part, stored data)]."""
    out = []
    pos = 0
    n = len(data)
    while pos < n:
        if pos + 7 > n:
            raise ParseError("trailing bytes at %d" % pos)
        crc, t, fl, hs = struct.unpack_from("<HBHH", data, pos)
        if hs < 7 or pos + hs > n:
            raise ParseError("bad header size at %d" % pos)
        end = pos + hs
        if t == 0x69:
            name = ""
            if fl & 1:
                ln = struct.unpack_from("<H", data, pos + 7)[0]
                name = data[pos + 9:pos + 9 + ln].decode("utf-8")
            out.append(["app", name, data[pos:end], None])
        elif t == 0x6a:
            add, ln = struct.unpack_from("<IH", data, pos + 7)
            name = data[pos + 13:pos + 13 + ln].decode("utf-8")
            end += add
            if end > n:
                raise ParseError("stored file %r truncated" % name)
            out.append(["st", name, data[pos:end], data[pos + hs:end]])
        elif t == 0x6b:
            ln = struct.unpack_from("<H", data, pos + 23)[0]
            out.append(["oso", data[pos + 25:pos + 25 + ln].decode("utf-8"), data[pos:end], None])
        elif t == 0x71:
            ln = struct.unpack_from("<H", data, pos + 7)[0]
            out.append(["vol", data[pos + 9:pos + 9 + ln].decode("utf-8"), data[pos:end], None])
            kept = not fl & 1
        else:                                 # RAR block or padding: belongs to the current volume
            add = 0
            is_rr = t == 0x78 or (t == 0x7a and data[pos + 32:pos + 34] == b"RR" and
                                  struct.unpack_from("<H", data, pos + 26)[0] == 2)
            if t not in (0x74,) and (kept or not is_rr) and (fl & 0x8000 or t == 0x7a):
                add = struct.unpack_from("<I", data, pos + 7)[0]
            end += add
            if end > n or not out or out[-1][0] != "vol":
                raise ParseError("block %#x at %d out of place" % (t, pos))
            out[-1][2] += data[pos:end]
        pos = end
    return [tuple(x) for x in out]
