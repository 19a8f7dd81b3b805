"""Writers for small, well-formed AVI, MKV, MP4, WMV, FLAC, MP3 and stream files.

The video writers take `items`: the frames in file order as (track, bytes) with tracks 1..n, and
an `o` dict of layout options; every option only changes the packaging, never the frame data."""
import struct

EXT = {"avi": ".avi", "mkv": ".mkv", "mp4": ".mp4", "wmv": ".wmv", "stream": ".vob", "flac": ".flac", "mp3": ".mp3"}


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


# --- AVI ---------------------------------------------------------------------------------------------------
def chunk(cc, data, pad=b"\0"):
    return cc + struct.pack("<L", len(data)) + data + (pad if len(data) % 2 else b"")


def lst(cc, data, kind=b"LIST"):
    return kind + struct.pack("<L", len(data) + 4) + cc + data


AVI_KIND = {1: b"dc", 2: b"wb", 3: b"tx", 4: b"wb"}


HOLE = b"<<a hole of o['hole'] bytes goes here>>"


class Holed:
    """File contents with one run of zeros that only exists as a hole: bytes in which HOLE stands for it."""

    def __init__(self, data, n):
        self.pre, self.post = data.split(HOLE)
        self.n = n
        self.size = len(self.pre) + n + len(self.post)

    def __len__(self):
        return self.size

    def write(self, f, off, n):
        """Bytes off..off+n at the current position of f."""
        base, b = f.tell(), len(self.pre) + self.n
        if off < len(self.pre):
            f.write(self.pre[off:off + n])
        if off + n > b:
            lo = max(off, b)
            f.seek(base + lo - off)
            f.write(self.post[lo - b:off + n - b])
        f.seek(base + n)
        f.truncate()


def avi(items, rng, o):
    tracks = sorted({t for t, _ in items} | set(o.get("tracks", ())))
    base = o.get("first", 0)
    hdrl = chunk(b"avih", rb(rng, 56))
    for t in tracks:
        hdrl += lst(b"strl", chunk(b"strh", rb(rng, 56)) + chunk(b"strf", rb(rng, 40 + t)))
    hdr = lst(b"hdrl", hdrl)
    if o.get("junk"):
        hdr += chunk(b"JUNK", rb(rng, o["junk"]))
    if o.get("info"):
        hdr += lst(b"INFO", chunk(b"ISFT", b"writer\0"))
    chunks = []
    for t, d in items:
        chunks.append((b"%02d" % (t - 1 + base) + AVI_KIND.get(t, b"wb"), d))
    split = len(chunks)
    if o.get("avix"):
        split = max(1, len(chunks) // 2)
    movi_at = 12 + len(hdr)

    def movi(cs, index):
        out, pos, i = b"", 4, 0
        while i < len(cs):
            group = 3 if o.get("rec") else 1
            body = b""
            for cc, d in cs[i:i + group]:
                off = pos + len(body) + (12 if o.get("rec") else 0)
                index.append((cc, off, len(d)))
                body += chunk(cc, d, bytes([rng.randrange(256)]) if o.get("padrnd") else b"\0")
            body = lst(b"rec ", body) if o.get("rec") else body
            out += body
            pos += len(body)
            i += group
            if o.get("ix") and i % 4 == 0:
                j = chunk(b"JUNK", rb(rng, 6))
                out += j
                pos += len(j)
        return lst(b"movi", out)
    index = []
    body = hdr + movi(chunks[:split], index)
    if o.get("idx1", True):
        abs_ = (movi_at + 8) if o.get("absidx") else 0
        body += chunk(b"idx1", b"".join(cc + struct.pack("<LLL", 0x10, off + abs_, n) for cc, off, n in index))
    out = lst(b"AVI ", body, b"RIFF")
    if o.get("hole"):
        out += b"JUNK" + struct.pack("<L", o["hole"]) + HOLE
    if split < len(chunks):
        out += lst(b"AVIX", movi(chunks[split:], []), b"RIFF")
    return out


# --- MKV ---------------------------------------------------------------------------------------------------
def vint(n, width=None):
    w = width or next(i for i in range(1, 9) if n < (1 << (7 * i)) - 1)
    return ((1 << (7 * w)) | n).to_bytes(w, "big")


def el(eid, data, width=None):
    return eid + vint(len(data), width) + data


def uint(n):
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")


def lace(frames, kind):
    """-> (flag bits, lace header)"""
    n = len(frames)
    if kind == "fixed" and len({len(f) for f in frames}) == 1:
        return 4, bytes([n - 1])
    if kind == "ebml":
        h = bytes([n - 1]) + vint(len(frames[0]))
        for a, b in zip(frames, frames[1:-1]):
            d = len(b) - len(a)
            w = next(i for i in range(1, 9) if abs(d) < (1 << (7 * i - 1)) - 1)
            h += ((1 << (7 * w)) | (d + (1 << (7 * w - 1)) - 1)).to_bytes(w, "big")
        return 6, h
    h = bytes([n - 1])
    for f in frames[:-1]:
        q, r = divmod(len(f), 255)
        h += b"\xff" * q + bytes([r])
    return 2, h


def mkv(items, rng, o):
    tracks = sorted({t for t, _ in items} | set(o.get("tracks", ())))
    num = lambda t: t - 1 + o.get("first", 1)
    strip = o.get("strip", {})
    wide = o.get("wide")
    ebml = el(b"\x1a\x45\xdf\xa3", el(b"\x42\x86", b"\1") + el(b"\x42\x82", b"matroska"))
    seg = b""
    if o.get("void"):
        seg += el(b"\x11\x4d\x9b\x74", rb(rng, 30)) + el(b"\xec", bytes(o["void"]))
    seg += el(b"\x15\x49\xa9\x66", el(b"\x2a\xd7\xb1", uint(1000000)) + el(b"\x7b\xa9", "t\u00eft".encode()))
    tl = b""
    for t in tracks:
        te = el(b"\xd7", uint(num(t))) + el(b"\x73\xc5", rb(rng, 4)) + el(b"\x83", b"\1") + el(b"\x86", b"V_TEST%d" % t)
        if t in strip:
            cc = el(b"\x42\x54", b"\3") + el(b"\x42\x55", strip[t]) if strip[t] is not None else el(b"\x42\x54", b"\0")
            te += el(b"\x6d\x80", el(b"\x62\x40", el(b"\x50\x31", b"\0") + el(b"\x50\x34", cc)))
        tl += el(b"\xae", te)
    seg += el(b"\x16\x54\xae\x6b", tl)
    if o.get("attach"):
        seg += el(b"\x19\x41\xa4\x69", b"".join(
            el(b"\x61\xa7", el(b"\x46\x6e", n.encode()) + el(b"\x46\x60", b"image/x") + el(b"\x46\x5c", d) + el(b"\x46\xae", b"\7"))
            for n, d in o["attach"]))
    if o.get("hole"):
        seg += b"\xec" + vint(o["hole"], 8) + HOLE
    per_cluster = o.get("per_cluster", 6)
    maxlace = o.get("lace_n", 3) if o.get("lace") else 1
    blocks, i = [], 0
    while i < len(items):
        t = items[i][0]
        fr = [items[i][1]]
        while len(fr) < maxlace and i + len(fr) < len(items) and items[i + len(fr)][0] == t:
            fr.append(items[i + len(fr)][1])
        i += len(fr)
        pre = strip.get(t) or b""
        for f in fr:
            assert f.startswith(pre)
        fr = [f[len(pre):] for f in fr]
        flags, lh = (0, b"") if len(fr) == 1 else lace(fr, o["lace"])
        body = vint(num(t)) + struct.pack(">hB", len(blocks), flags) + lh + b"".join(fr)
        if o.get("group") and (len(blocks) % 2 or o["group"] == "all"):
            blocks.append(el(b"\xa0", el(b"\xa1", body, wide) + el(b"\x9b", b"\x28") + (el(b"\xfb", b"\1") if len(blocks) % 3 else b"")))
        else:
            blocks.append(el(b"\xa3", body, wide))
    for c in range(0, len(blocks), per_cluster):
        cl = el(b"\xe7", uint(c)) + b"".join(blocks[c:c + per_cluster])
        if o.get("crc"):
            cl = el(b"\xbf", rb(rng, 4)) + cl
        seg += el(b"\x1f\x43\xb6\x75", cl, 4 if wide else None)
    if o.get("cues", True):
        seg += el(b"\x1c\x53\xbb\x6b", rb(rng, 40))
    if o.get("tags"):
        seg += el(b"\x12\x54\xc3\x67", el(b"\x73\x73", rb(rng, 12)))
    if o.get("hole"):
        return ebml + b"\x18\x53\x80\x67" + vint(len(seg) - len(HOLE) + o["hole"], 8) + seg
    return ebml + el(b"\x18\x53\x80\x67", seg, 8)


# --- MP4 ---------------------------------------------------------------------------------------------------
def atom(cc, data, big=False):
    if big:
        return struct.pack(">L", 1) + cc + struct.pack(">Q", len(data) + 16) + data
    return struct.pack(">L", len(data) + 8) + cc + data


def mp4(items, rng, o):
    tracks = sorted({t for t, _ in items} | set(o.get("tracks", ())))
    num = lambda t: t - 1 + o.get("first", 1)
    maxs = o.get("chunk_n", 3)
    chunks, i = [], 0
    while i < len(items):
        t, fr = items[i][0], [items[i][1]]
        while len(fr) < maxs and i + len(fr) < len(items) and items[i + len(fr)][0] == t:
            fr.append(items[i + len(fr)][1])
        i += len(fr)
        chunks.append((t, fr))
    data = b"".join(b"".join(fr) for _, fr in chunks)
    ftyp = atom(b"ftyp", b"isom\0\0\2\0isomavc1")
    free = atom(b"free", rb(rng, o["free"])) if o.get("free") else b""
    if o.get("nullatom"):
        free += b"\0" * 8
    more = 0
    bigmdat = o.get("bigmdat")
    mdat = (struct.pack(">L", 0) + b"mdat" + data) if o.get("openmdat") else atom(b"mdat", data, bigmdat)
    if o.get("hole"):                 # data that no track refers to, before the rest
        mdat = struct.pack(">L", 1) + b"mdat" + struct.pack(">Q", 16 + o["hole"] + len(data)) + HOLE + data
    mdat_h = len(mdat) - len(data)
    if o.get("hole"):
        more = o["hole"] - len(HOLE)

    def moov(start):
        trs = b""
        for t in tracks:
            offs, per, sizes, pos = [], [], [], start
            for ct, fr in chunks:
                if ct == t:
                    offs.append(pos)
                    per.append(len(fr))
                    sizes += [len(f) for f in fr]
                pos += sum(len(f) for f in fr)
            stsc = []
            for n, p in enumerate(per):
                if not stsc or stsc[-1][1] != p:
                    stsc.append((n + 1, p, 1))
            if sizes and len(set(sizes)) == 1 and o.get("cbr", True):
                stsz = struct.pack(">LLL", 0, sizes[0], len(sizes))
            else:
                stsz = struct.pack(">LLL", 0, 0, len(sizes)) + b"".join(struct.pack(">L", s) for s in sizes)
            stco = (atom(b"co64", struct.pack(">LL", 0, len(offs)) + b"".join(struct.pack(">Q", x) for x in offs)) if o.get("co64")
                    else atom(b"stco", struct.pack(">LL", 0, len(offs)) + b"".join(struct.pack(">L", x) for x in offs)))
            tabs = [atom(b"stsc", struct.pack(">LL", 0, len(stsc)) + b"".join(struct.pack(">LLL", *x) for x in stsc)),
                    atom(b"stsz", stsz), stco]
            if o.get("tabrev"):
                tabs.reverse()
            stbl = atom(b"stsd", b"\0" * 8 + bytes([t] * 20)) + atom(b"stts", b"\0" * 8) + b"".join(tabs)
            tkhd = atom(b"tkhd", struct.pack(">LLLLL", 7, 1, 2, num(t), 0) + b"\0" * 64)
            trs += atom(b"trak", tkhd + atom(b"mdia", atom(b"mdhd", b"\1" * 24) + atom(b"hdlr", b"\0" * 25)
                                              + atom(b"minf", atom(b"vmhd", b"\0" * 12) + atom(b"stbl", stbl))))
        return atom(b"moov", atom(b"mvhd", b"\2" * 100) + trs + (atom(b"udta", b"meta" * 5) if o.get("udta") else b""))
    if o.get("moov_last") and not o.get("openmdat"):
        pre = ftyp + free
        return pre + mdat + moov(len(pre) + more + mdat_h)
    n = len(moov(0))
    pre = len(ftyp) + n + len(free) + more + mdat_h
    return ftyp + moov(pre) + free + mdat


# --- WMV (ASF) ---------------------------------------------------------------------------------------------
G_HEADER = b"\x30\x26\xb2\x75\x8e\x66\xcf\x11\xa6\xd9\x00\xaa\x00\x62\xce\x6c"
G_DATA = b"\x36\x26\xb2\x75\x8e\x66\xcf\x11\xa6\xd9\x00\xaa\x00\x62\xce\x6c"
G_STREAM = b"\x91\x07\xdc\xb7\xb7\xa9\xcf\x11\x8e\xe6\x00\xc0\x0c\x20\x53\x65"
G_FILE = b"\xa1\xdc\xab\x8c\x47\xa9\xcf\x11\x8e\xe4\x00\xc0\x0c\x20\x53\x65"
G_EXT = b"\xb5\x03\xbf\x5f\x2e\xa9\xcf\x11\x8e\xe3\x00\xc0\x0c\x20\x53\x65"
G_INDEX = b"\x90\x08\x00\x33\xb1\xe5\xcf\x11\x89\xf4\x00\xa0\xc9\x03\x49\xcb"


def obj(g, data):
    return g + struct.pack("<Q", len(data) + 24) + data


def wmv(items, rng, o):
    """Frames are cut into payloads; packets of a fixed size hold one or several payloads."""
    tracks = sorted({t for t, _ in items} | set(o.get("tracks", ())))
    num = lambda t: t - 1 + o.get("first", 1)
    psize = o.get("psize", 400)
    multi = o.get("multi", True)
    packets, cur, used = [], [], 0
    # header: 82 00 00 | flags prop | [packet length] [padding] send(4) dur(2) | count(1)
    seqt = o.get("seq", 0)            # sequence field type 0..3
    padt = o.get("padt", 2)           # padding length type
    plen = o.get("plen", 0)           # explicit packet length: 0 or 2
    w = {0: 0, 1: 1, 2: 2, 3: 4}
    head = 3 + 2 + w[plen] + w[seqt] + w[padt] + 6 + (1 if multi else 0)
    rep = o.get("rep", 8)
    ph = 1 + 1 + 4 + 1 + rep + (2 if multi else 0)  # stream, object nr (byte), offset (dword), rep len (byte), rep, [len]
    comp = o.get("comp", ())          # tracks with compressed payloads (sub-payloads)

    def flush():
        nonlocal cur, used
        if cur:
            packets.append(cur)
        cur, used = [], 0
    room = psize - head
    for n, (t, d) in enumerate(items):
        off = 0
        if t in comp and multi and len(d) <= 250:
            need = 1 + 1 + 4 + 1 + 1 + 2 + 1 + len(d)
            if used + need > room:
                flush()
            prev = cur[-1] if cur else None
            if prev and prev[0] == "c" and prev[1] == t and used + 1 + len(d) <= room:
                prev[3].append(d)
                used += 1 + len(d)
            else:
                cur.append(("c", t, n, [d]))
                used += need
            continue
        while off < len(d):
            if used + ph + 1 > room or (not multi and cur) or len(cur) >= o.get("maxpl", 20):
                flush()
            take = min(len(d) - off, room - used - ph, o.get("cut", 10 ** 9))
            cur.append(("p", t, n, d[off:off + take], off, len(d)))
            used += ph + take
            off += take
        if not d:
            pass
    flush()
    body = b""
    for p in packets:
        pay = b""
        for x in p:
            if x[0] == "c":
                sub = b"".join(bytes([len(d)]) + d for d in x[3])
                pay += bytes([num(x[1])]) + bytes([x[2] & 255]) + struct.pack("<L", x[2]) + b"\x01" + b"\x07" + struct.pack("<H", len(sub)) + sub
            else:
                _, t, n, d, off, tot = x
                pay += bytes([num(t) | (0x80 if off == 0 else 0)]) + bytes([n & 255]) + struct.pack("<L", off) + bytes([rep])
                if rep:
                    pay += struct.pack("<LL", tot, n) + rb(rng, rep - 8)
                if multi:
                    pay += struct.pack("<H", len(d))
                pay += d
        padding = room - len(pay)
        count = bytes([0x80 | len(p)]) if multi else b""
        flags = (1 if multi else 0) | (seqt << 1) | (padt << 3) | (plen << 5)

        def fld(tp, v):
            return b"" if tp == 0 else struct.pack({1: "<B", 2: "<H", 3: "<L"}[tp], v)
        if padt == 1 and padding > 255:
            raise ValueError("padding does not fit")
        if padt == 0 and padding:
            raise ValueError("padding not possible")
        padv = padding
        plv = psize
        if o.get("shortlen") and plen:          # packet length smaller than the packet size: the rest is padding too
            plv, padv = psize - padding, 0
        body += b"\x82\0\0" + bytes([flags, 0x5d]) + fld(plen, plv) + fld(seqt, 9) + fld(padt, padv) + struct.pack("<LH", len(body), 40) + count
        body += pay + (rb(rng, padding) if o.get("padrnd") else bytes(padding))
    data = G_DATA + struct.pack("<Q", 50 + len(body)) + rb(rng, 16) + struct.pack("<Q", len(packets)) + b"\1\1" + body
    streams = [obj(G_STREAM, rb(rng, 48) + struct.pack("<H", num(t)) + rb(rng, 4 + t)) for t in tracks]
    if o.get("nohdr"):
        streams = streams[:-1]
    tail = obj(G_INDEX, rb(rng, 34)) if o.get("index", True) else b""
    ext = obj(G_EXT, rb(rng, 22))
    nobj = len(streams) + 2
    hlen = 30 + 24 + 80 + sum(map(len, streams)) + len(ext)
    if o.get("hole"):
        data = rb(rng, 16) + struct.pack("<Q", 24 + o["hole"]) + HOLE + data
    total = hlen + len(data) + len(tail) + (o["hole"] - len(HOLE) if o.get("hole") else 0)
    fobj = obj(G_FILE, rb(rng, 16) + struct.pack("<Q", total) + rb(rng, 56))
    header = G_HEADER + struct.pack("<QLH", hlen, nobj, 0x0201) + fobj + b"".join(streams) + ext
    assert len(header) == hlen, (len(header), hlen)
    return header + data + tail


VIDEO = {"avi": avi, "mkv": mkv, "mp4": mp4, "wmv": wmv}


# --- music -------------------------------------------------------------------------------------------------
def syncsafe(n):
    return bytes([(n >> 21) & 127, (n >> 14) & 127, (n >> 7) & 127, n & 127])


def id3v2(data, ver=3):
    return b"ID3" + bytes([ver, 0, 0]) + syncsafe(len(data)) + data


def id3v1(title):
    return b"TAG" + title.ljust(125, b"\0")[:125]


def lyrics3v1(text):
    return b"LYRICSBEGIN" + text + b"LYRICSEND"


def lyrics3v2(text):
    body = b"LYRICSBEGIN" + text
    return body + b"%06d" % len(body) + b"LYRICS200"


def ape(items, version=2000):
    body = b"".join(struct.pack("<LL", len(v), 0) + k + b"\0" + v for k, v in items)
    size = len(body) + 32
    foot = lambda fl: b"APETAGEX" + struct.pack("<LLLL", version, size, len(items), fl) + b"\0" * 8
    return (foot(0xa0000000) if version == 2000 else b"") + body + foot(0x80000000 if version == 2000 else 0)


def flac_block(btype, data, last):
    return bytes([btype | (0x80 if last else 0)]) + struct.pack(">L", len(data))[1:] + data
