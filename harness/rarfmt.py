"""Independent writer of RAR 1.5-4.x store-mode volumes (from the RAR 3.93 technote), the
concretisation of the token lists produced by spec/RarSet.tla.  Shares no code with /repo."""
import hashlib
import random
import struct
import zlib

MARKER = b"Rar!\x1a\x07\x00"
LONG_BLOCK = 0x8000


def block(btype, flags, body, data=b"", crc_extra=None):
    head = struct.pack("<BHH", btype, flags, 7 + len(body)) + body
    crc = zlib.crc32(head if crc_extra is None else head[:crc_extra]) & 0xffff
    return struct.pack("<H", crc) + head + data


def main_header(volume=False, new_naming=False, first=False, rr=False, solid=False, lock=False, extra_flags=0):
    flags = (0x1 if volume else 0) | (0x10 if new_naming else 0) | (0x100 if first else 0) | (0x40 if rr else 0) \
        | (0x8 if solid else 0) | (0x4 if lock else 0) | extra_flags
    return block(0x73, flags, b"\0" * 6)


def encode_unicode(name, rng=None):
    """RAR3 'UNICODE' name field: fallback name, NUL, then the encoded form (all four opcodes when rng is given)."""
    units = [ord(c) for c in name]
    std = bytes(u if u < 0x80 else (u & 0xff if rng and rng.random() < .5 and u & 0xff and u & 0xff != 0x5c else 0x5f) for u in units)
    if rng and rng.random() < .3:                  # pure UTF-8 name: no NUL at all
        return name.encode("utf-8")
    hi = 0
    if rng:
        his = [u >> 8 for u in units if u >> 8]
        hi = rng.choice(his) if his else 0
    ops = []
    i = 0
    while i < len(units):
        u = units[i]
        cand = [2]
        if rng:
            if u < 0x100:
                cand.append(0)
            if u >> 8 == hi:
                cand.append(1)
            n = 0                                  # run of characters equal to the fallback
            while i + n < len(units) and units[i + n] == std[i + n] < 0x80 and n < 129:
                n += 1
            if n >= 2:
                cand += [3, 3]
            m = 0                                  # run of characters = fallback + constant, high byte hi
            while i + m < len(units) and units[i + m] >> 8 == hi and m < 129 and \
                    (units[i + m] - std[i + m]) & 0xff == (u - std[i]) & 0xff:
                m += 1
            if m >= 2 and hi:
                cand += [4]
        op = rng.choice(cand) if rng else 2
        if op == 0:
            ops.append((0, bytes([u])))
            i += 1
        elif op == 1:
            ops.append((1, bytes([u & 0xff])))
            i += 1
        elif op == 2:
            ops.append((2, struct.pack("<H", u)))
            i += 1
        elif op == 3:
            k = rng.randrange(2, n + 1)
            ops.append((3, bytes([k - 2])))
            i += k
        else:
            k = rng.randrange(2, m + 1)
            ops.append((3, bytes([0x80 | (k - 2), (u - std[i]) & 0xff])))
            i += k
    enc = bytearray([hi])
    for i in range(0, len(ops), 4):
        flags = 0
        body = b""
        for j, (op, data) in enumerate(ops[i:i + 4]):
            flags |= op << (6 - 2 * j)
            body += data
        enc.append(flags)
        enc += body
    return std + b"\0" + bytes(enc)


def file_header(name, pack, unp, crc, before=False, after=False, directory=False, host=2, ftime=0x3c21a5b3, ver=20,
                method=0x30, attr=0x20, large=False, exttime=b"", dict_bits=0, salt=None, btype=0x74, unicode_=False,
                extra_flags=0, raw_name=None, add=b"", uni_rng=None):
    flags = LONG_BLOCK | (1 if before else 0) | (2 if after else 0) | (0xe0 if directory else dict_bits) | extra_flags
    nm = raw_name
    if nm is None:
        if unicode_:
            nm = encode_unicode(name, uni_rng)
            flags |= 0x200
        else:
            nm = name.encode("latin-1")
    if large:
        flags |= 0x100
    if salt is not None:
        flags |= 0x400
    if exttime:
        flags |= 0x1000
    body = struct.pack("<IIBIIBBHI", pack & 0xffffffff, unp & 0xffffffff, host, crc, ftime, ver, method, len(nm), attr)
    if large:
        body += struct.pack("<II", pack >> 32, unp >> 32)
    body += nm
    if salt is not None:
        body += salt
    body += exttime + add
    return block(btype, flags, body)


def comment_newsub(rng):
    data = bytes(rng.randrange(256) for _ in range(rng.choice([5, 40, 300])))
    h = file_header("CMT", len(data), len(data) + 9, zlib.crc32(data), host=3, ver=29, method=0x33, attr=0, btype=0x7a,
                    ftime=0)
    return h + data


def subblock(name, data, skip_long=False):
    nm = name.encode()
    flags = 0 if skip_long else LONG_BLOCK
    body = struct.pack("<IIBIIBBHI", len(data), len(data), 2, zlib.crc32(data), 0, 20, 0x30, len(nm), 0) + nm
    return block(0x7a, flags, body, data)


def old_comment(rng):
    data = bytes(rng.randrange(256) for _ in range(20))
    body = struct.pack("<HBBH", len(data), 15, 0x30, zlib.crc32(data) & 0xffff) + data
    return block(0x75, 0, body)


def old_av(rng):
    data = bytes(rng.randrange(256) for _ in range(33))
    return block(0x76, 0, data)


def av_sub_79(rng):
    """0x79: old authenticity, with added data."""
    data = bytes(rng.randrange(256) for _ in range(50))
    return block(0x79, LONG_BLOCK, struct.pack("<I", len(data)) + b"\1\2\3\4", data)


def rr_parity(prefix, sectors):
    """CRC table and parity sectors over the bytes written so far (512-byte sectors, zero padded)."""
    n = (len(prefix) + 511) // 512
    crcs = bytearray()
    parity = [bytearray(512) for _ in range(sectors)]
    ints = [0] * sectors
    for i in range(n):
        sec = prefix[i * 512:(i + 1) * 512]
        sec = sec + b"\0" * (512 - len(sec))
        crcs += struct.pack("<H", (zlib.crc32(sec) ^ 0xffffffff) & 0xffff)
        ints[i % sectors] ^= int.from_bytes(sec, "little")
    parity = b"".join(v.to_bytes(512, "little") for v in ints)
    return n, bytes(crcs) + parity


def rr_new(prefix, sectors):
    n, data = rr_parity(prefix, sectors)
    nm = b"RR"
    add = b"Protect+" + struct.pack("<IQ", sectors, n)
    body = struct.pack("<IIBIIBBHI", len(data), len(data), 2, zlib.crc32(data), 0, 29, 0x30, len(nm), 0) + nm + add
    return block(0x7a, LONG_BLOCK, body), data


def rr_old(prefix, sectors):
    n, data = rr_parity(prefix, sectors)
    body = struct.pack("<I", len(data)) + struct.pack("<BHI", 20, sectors, n) + b"Protect!"
    return block(0x78, LONG_BLOCK, body), data


def end_block(kind, nextvol, volnr, prefix):
    """kind: plain | crc (data crc) | full (crc + volume number + reserved) | p0w4"""
    if kind == "plain":
        return block(0x7b, 0x4000 | (1 if nextvol else 0), b"")
    if kind == "crc":
        return block(0x7b, 0x4000 | 0x2 | 0x8 | (1 if nextvol else 0), struct.pack("<IH", zlib.crc32(prefix), volnr))
    if kind == "full":
        return block(0x7b, 0x4000 | 0xe | (1 if nextvol else 0), struct.pack("<IH", zlib.crc32(prefix), volnr) + b"\0" * 7)
    if kind == "p0w4":
        return b"\0" * 5 + struct.pack("<H", 20) + b"\0" * 13
    raise ValueError(kind)


def pattern(seed, n):
    """n reproducible bytes that contain no short period; fast enough for large n."""
    if n == 0:
        return b""
    r = random.Random("%s" % (seed,))
    return r.randbytes(n)


# -- SRR blocks (independent writer) ---------------------------------------------------------
def srr_header(app):
    a = app.encode("utf-8")
    body = (struct.pack("<H", len(a)) + a) if app else b""
    flags = 1 if app else 0
    return struct.pack("<HBHH", 0x6969, 0x69, flags, 7 + len(body)) + body


def srr_stored(name, data):
    n = name.encode("utf-8")
    return struct.pack("<HBHHI", 0x6a6a, 0x6a, 0x8000, 7 + 4 + 2 + len(n), len(data)) + struct.pack("<H", len(n)) + n + data


def srr_rar(name, rr_removed=True):
    n = name.encode("utf-8")
    return struct.pack("<HBHH", 0x7171, 0x71, 1 if rr_removed else 0, 7 + 2 + len(n)) + struct.pack("<H", len(n)) + n


def srr_oso(name, size, oso):
    n = name.encode("utf-8")
    return struct.pack("<HBHH", 0x6b6b, 0x6b, 0, 7 + 8 + 8 + 2 + len(n)) + struct.pack("<Q8sH", size, oso, len(n)) + n


def srr_padding(data):
    return struct.pack("<HBHHI", 0x6c6c, 0x6c, 0x8000, 7 + 4, len(data)) + data


def osohash(data):
    """OpenSubtitles hash of a byte string, or None when too small (below 64 KiB)."""
    if len(data) < 65536:
        return None
    h = len(data)
    for part in (data[:65536], data[-65536:]):
        h += sum(struct.unpack("<8192Q", part))
    return h & 0xffffffffffffffff


def sha(data):
    return hashlib.sha1(data).hexdigest()
