"""Stand-ins for the RAR executables that rebuild compressed archives.

Every executable of a repository is the same script: its name selects a
"compressor" from cfg.py in its folder.  It writes real RAR (version 3)
archives with a made up compression that behaves like the real one where it
matters for finding the right executable:
 - the data depends on the compressor family, the method, the dictionary and
   the number of threads (for files that are not too small);
 - the data of a prefix of a file is a prefix of the data (but for the end);
 - older families compress less;
 - solid: the data of a file depends on the files before it;
 - quirk "next"/"prev": the end/begin of a file depends on whether another
   file follows/precedes in the archive.
Every call is added to the log.
"""
import os
import shutil
import subprocess
import sys

STUB = r'''#!/usr/bin/python3 -IS
import sys, os, struct, zlib
argv = sys.argv
here = os.path.dirname(os.path.abspath(argv[0]))
name = os.path.basename(argv[0])
cfg = eval(open(os.path.join(here, "cfg.py")).read())
me = cfg["tools"][name]
fd = os.open(cfg["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
os.write(fd, (repr((name, argv[1:])) + "\n").encode())
os.close(fd)
if len(argv) == 1:
    sys.stdout.write("Usage:     rar <command> -<switch 1> -<switch N> <archive> <files...>\n")
    if me["mt"]:
        sys.stdout.write("  mt<threads>   Set the number of threads\n")
    sys.exit(0)


def bad(code=7):
    sys.stdout.write("Unknown option\n")
    sys.exit(code)


if me.get("broken"):
    bad(me["broken"])
m = 3
md = "G"
solid = False
mt = 40
split = 0
vn = False
ma4 = False
sort = True
ep = False
rest = []
if argv[1] != "a":
    bad()
for a in argv[2:]:
    if not a.startswith("-") or rest:
        rest.append(a)
    elif a in ("-s", "-s-"):
        solid = a == "-s"
    elif a == "-ds":
        sort = False
    elif a == "-ep":
        ep = True
    elif a in ("-idcd", "-o+"):
        pass
    elif a == "-vn":
        if me["ver"] < 300:
            bad()
        vn = True
    elif a == "-ma4":
        if me["ver"] < 500:
            bad()
        ma4 = True
    elif a.startswith("-mt"):
        mt = int(a[3:])
        if not me["mt"] or not (1 if me["ver"] >= 420 else 0) <= mt <= (32 if me["ver"] >= 420 else 16):
            bad()
    elif a.startswith("-md"):
        md = a[3:]
    elif a.startswith("-m"):
        m = int(a[2:])
    elif a.startswith("-v"):
        if not a.endswith("b"):
            bad()
        split = int(a[2:-1])
    else:
        bad()
sizes = {"64": 0, "128": 1, "256": 2, "512": 3, "1024": 4, "2048": 5, "4096": 6}
sizes.update(dict(zip("ABCDEFG", range(7))))
if md not in sizes or (me["ver"] < 290 and sizes[md] > 4):
    bad()
dic = sizes[md]
if me["ver"] >= 500 and not ma4:
    open(rest[0], "wb").write(b"Rar!\x1a\x07\x01\x00" + bytes(40))
    sys.exit(0)
files = []
for f in rest[1:]:
    if f and f not in files:
        files.append(f)
if not files:
    bad(10)
if solid and sort:
    files.sort(key=lambda f: os.path.splitext(f)[::-1])
KEY = (me["fam"], m if m else 0, dic)


def xor(data, n, k):
    pat = (struct.pack("<I", k) * (n // 4 + 1))[:n]
    src = (data * (n // len(data) + 1))[:n] if data else bytes(n)
    return (int.from_bytes(src, "big") ^ int.from_bytes(pat, "big")).to_bytes(n, "big")


def compress(data, state, prev, last):
    t = mt if me["mt"] and len(data) >= cfg["mtmin"] else 0
    key = zlib.crc32(repr((KEY, t, state)).encode())
    out = []
    for i in range(0, len(data), 256):
        c = data[i:i + 256]
        n = max(1, len(c) * me["ratio"] // 1000)
        k = zlib.crc32(c, key)
        if i == 0 and (prev and cfg["quirk"] in ("prev", "both") or prev > 1 and cfg["quirk"] == "deep"):
            k ^= 0x5a5a5a5a
        out.append(xor(c, n, k))
    # without the switch: as many as there are; more threads, less data
    tail = me["tail"] + m + (40 - t if len(data) >= cfg["mtmin"] else 0)
    if prev and cfg["quirk"] in ("prev", "both"):
        tail += 45
    if not last and cfg["quirk"] in ("next", "both"):
        tail += 90
    if prev > 1 and cfg["quirk"] == "deep":
        tail += 45
    out.append(xor(b"tail", tail, key))
    return b"".join(out)


def block(typ, flags, body, add=b""):
    h = struct.pack("<BHH", typ, flags, 7 + len(body)) + body
    return struct.pack("<H", zlib.crc32(h) & 0xffff) + h + add


vols = [[]]
used = [0]
MARK = b"Rar!\x1a\x07\x00"
# (header maker, data) for all the files
items = []
state = 0
blobs = []
for i, f in enumerate(files):
    if os.path.isdir(f):
        items.append((f, None, None, None))
        continue
    data = open(f, "rb").read()
    packed = compress(data, state, i, i == len(files) - 1) if data else b""
    if solid:
        state = zlib.crc32(data, state)
    method = m
    if not data or m == 0 or f[-4:] == ".png" or (len(packed) >= len(data) and not split):
        packed, method = data, 0
    items.append((f, data, packed, method))


def new_volume():
    vols.append([])
    used.append(0)


OVER = 7 + 13 + 7
first = True
for f, data, packed, method in items:
    base = (os.path.basename(f) if ep else f.lstrip("/")).encode()
    if data is None:
        hs = 32 + len(base)
        if split and used[-1] and used[-1] + hs + OVER > split:
            new_volume()
        vols[-1].append(block(0x74, 0x80e0, struct.pack("<IIBIIBBHI", 0, 0, 3, 0, cfg["dos"].get(os.path.basename(f), 0x21), me["unp"], 0x30, len(base), 0o40755) + base))
        used[-1] += hs
        continue
    hs = 32 + len(base)
    pos = 0
    before = False
    while True:
        if split and used[-1] + hs + 1 + OVER > split and used[-1]:
            new_volume()
        room = split - OVER - used[-1] - hs if split else len(packed)
        part = packed[pos:pos + max(1, room)] if packed else b""
        pos += len(part)
        after = pos < len(packed)
        flags = 0x8000 | (1 if before else 0) | (2 if after else 0) | (dic << 5)
        if solid and not first and method:
            flags |= 0x10
        if after:
            crc = 0xffffffff if me["ver"] < 290 else zlib.crc32(part)
        else:
            crc = zlib.crc32(data)
        vols[-1].append(block(0x74, flags, struct.pack("<IIBIIBBHI", len(part), len(data), 3, crc, cfg["dos"].get(os.path.basename(f), 0x21),
                        me["unp"], 0x30 + method, len(base), 0o100644) + base, part))
        used[-1] += hs + len(part)
        if not after:
            break
        before = True
        new_volume()
    if method:
        first = False
many = len(vols) > 1
out = rest[0]
for n, v in enumerate(vols):
    fl = (0x8 if solid else 0) | (1 if many else 0) | (0x100 if many and n == 0 and me["ver"] >= 300 else 0)
    new = many and not vn and me["ver"] >= 300
    if new:
        fl |= 0x10
    b = MARK + block(0x73, fl, bytes(6)) + b"".join(v)
    if me["ver"] >= 290:
        b += block(0x7b, 0x4000 | (1 if n + 1 < len(vols) else 0), b"")
    stem = out[:-4]
    if new:
        p = "%s.part%d.rar" % (stem, n + 1)
    else:
        p = out if n == 0 else "%s.r%02d" % (stem, n - 1)
    open(p, "wb").write(b)
sys.exit(0)
'''


def write(folder, tools, quirk, mtmin, log, dos, extra=()):
    """tools: {file name: dict(fam, ver, mt, ratio, tail, broken)}"""
    os.makedirs(folder, exist_ok=True)
    for t in tools.values():
        t.setdefault("unp", 20 if t["ver"] < 290 else 29)
    with open(os.path.join(folder, "cfg.py"), "w") as h:
        h.write(repr(dict(tools=tools, quirk=quirk, mtmin=mtmin, log=log, dos=dos)))
    first = None
    for n in tools:
        p = os.path.join(folder, n)
        if first is None:
            with open(p, "w") as h:
                h.write(STUB)
            os.chmod(p, 0o755)
            first = p
        else:
            shutil.copy(first, p)
    for n in extra:
        with open(os.path.join(folder, n), "w") as h:
            h.write("not an executable\n")


def run(folder, name, args, cwd):
    r = subprocess.run([os.path.join(folder, name)] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("stub rar %s %r: %s %s" % (name, args, r.returncode, r.stdout[-400:]))


def calls(log):
    if not os.path.isfile(log):
        return []
    with open(log) as h:
        return [eval(l) for l in h]
