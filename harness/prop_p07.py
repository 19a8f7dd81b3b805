"""P07: random access into archived files equals the plain file (spec/RarStream.tla, RarSet.tla)."""
import io
import os
import random
import zlib
from . import rarset, cli
from . import rarfmt as R
from .core import Failure, check, same, stable_hash

INVS = ["SamePosition", "VolumeRight", "SameBytes"]


def build_chunks(d, chunks, k, rng):
    """One file of len(chunks) volumes; other files before and after it in the same set."""
    naming = rng.choice(["old", "new", "num"])
    n = len(chunks)
    total = sum(chunks) * k
    data = R.pattern("rs%r" % rng.random(), total)
    name = rng.choice(["m.mkv", "dir\\sub\\m.mkv", "M.mkv", "a b.bin"])
    lead = R.pattern("lead", rng.choice([0, 1, 50]))
    folder = os.path.join(d, "v")
    os.makedirs(folder)
    digits = max(len(str(n)), rng.choice([1, 2, 3]))
    off = 0
    for i, c in enumerate(chunks):
        part = data[off:off + c * k]
        off += c * k
        out = R.MARKER + R.main_header(n > 1, naming == "new", i == 0, False)
        if i == 0 and lead:
            out += R.file_header("first.nfo", len(lead), len(lead), zlib.crc32(lead), False, False) + lead
        out += R.file_header(name, len(part), total, zlib.crc32(part if i < n - 1 else data), i > 0, i < n - 1) + part
        if i == n - 1 and rng.random() < .5:
            out += R.file_header("m.mkv.txt", 3, 3, zlib.crc32(b"end"), False, False) + b"end"
        out += R.end_block("crc", i < n - 1, i, out)
        with open(os.path.join(folder, rarset.volume_name(naming, "set", i + 1, n, digits)), "wb") as f:
            f.write(out)
    return os.path.join(folder, rarset.volume_name(naming, "set", 1, n, digits)), name, data, bool(lead)


def op(stream, plain, kind, a, b):
    """Apply one call to both and compare."""
    if kind == "seek":
        base = {0: 0, 1: plain.tell(), 2: len(plain.getvalue())}[b]
        if base + a < 0:
            before = stream.tell()
            try:
                r = stream.seek(a, b)
            except (IndexError, ValueError, OSError):
                same(stream.tell(), before, "position after a refused seek")
                return
            raise Failure("seek(%d, %d) to a negative position returned %r" % (a, b, r))
        same(stream.seek(a, b), plain.seek(a, b), "seek(%d, %d)" % (a, b))
    elif kind == "read":
        got, want = stream.read(a), plain.read(a)
        check(bytes(got) == want, "read(%d) at %d returned %d bytes (%s), the file has %d", a, plain.tell() - len(want), len(got),
              "different" if len(got) == len(want) else "wrong length", len(want))
        # a plain file does not move when reading past the end
    same(stream.tell(), plain.tell(), "tell() after %s(%d, %d)" % (kind, a, b))


def case_history(case, d):
    from rescene.rarstream import RarStream
    rng = random.Random(stable_hash(case))
    b, k = case["b"], case["k"]
    first, name, data, lead = build_chunks(d, b["chunks"], k, rng)
    slash = name.replace("\\", "/") if rng.random() < .5 else name
    st = RarStream(first, None if not lead and rng.random() < .3 else slash)
    plain = io.BytesIO(data)
    same(st.length(), len(data), "length()")
    same(st.tell(), 0, "initial position")
    for h in b["hist"]:
        a, w = h["a"], h["b"]
        jit = rng.choice([0, 0, -1, 1]) if k > 1 else 0
        if h["op"] == "seek":
            op(st, plain, "seek", a * k + jit, w)
        else:
            op(st, plain, "read", -1 if a < 0 else max(0, a * k + jit), 0)
        if k == 1:
            same(plain.tell(), h["pos"] if h["ok"] else plain.tell(), "the plain file and the specification")
    st.seek(0)
    check(st.read() == data, "read() from the start is not the whole file")
    check(st.read() == b"" and st.read(10) == b"", "reading at the end yields data")
    st.close()
    return {"ops": len(b["hist"])}


class Sparse:
    """A large plain file: zeros, with short runs of bytes around given places. Has the calls that `op` needs."""

    def __init__(self, size, places, salt):
        self.size, self.pos, self.runs = size, 0, {}
        for p in places:
            at = min(max(0, p - 40), max(0, size - 80))
            if not any(abs(at - q) < 80 for q in self.runs):
                self.runs[at] = R.pattern("%s-%d" % (salt, at), min(80, size - at))

    def at(self, pos, n):
        n = max(0, min(n, self.size - pos))
        out = bytearray(n)
        for p, r in self.runs.items():
            lo, hi = max(p, pos), min(p + len(r), pos + n)
            if lo < hi:
                out[lo - pos:hi - pos] = r[lo - p:hi - p]
        return bytes(out)

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, self.size)[whence]
        return self.pos

    def read(self, n):
        assert n >= 0
        out = self.at(self.pos, n)
        self.pos += len(out)
        return out

    def getvalue(self):
        return range(self.size)        # only its length is asked for

    def write(self, f, off, n):
        """Bytes off..off+n at the current position of f, with holes."""
        base = f.tell()
        for p, r in self.runs.items():
            lo, hi = max(p, off), min(p + len(r), off + n)
            if lo < hi:
                f.seek(base + lo - off)
                f.write(r[lo - p:hi - p])
        f.seek(base + n)


def build_huge(d, chunks, k, rng, name="big\\movie.mkv"):
    """Like build_chunks, with sizes that need 64 bits. Returns (paths, name, Sparse, [volume sizes])."""
    naming = rng.choice(["old", "new", "num"])
    n = len(chunks)
    sizes = [max(0, c * k + (rng.choice([-1, 0, 1, 7]) if c else 0)) for c in chunks]
    total, places, off = sum(sizes), [0, 1 << 31, 1 << 32, sum(sizes)], 0
    for s in sizes:
        off += s
        places.append(off)
    data = Sparse(total, [p for p in places if p <= total], "h%r" % rng.random())
    folder = os.path.join(d, "v")
    os.makedirs(folder)
    digits = max(len(str(n)), rng.choice([1, 2, 3]))
    off, paths, vsizes = 0, [], []
    for i, s in enumerate(sizes):
        head = R.MARKER + R.main_header(n > 1, naming == "new", i == 0, False)
        if i == 0 and rng.random() < .5:
            head += R.file_header("first.nfo", 7, 7, zlib.crc32(b"7 bytes"), False, False) + b"7 bytes"
        head += R.file_header(name, s, total, rng.randrange(1 << 32), i > 0, i < n - 1, large=True)
        tail = b""
        if i == n - 1 and rng.random() < .5:
            tail = R.file_header("movie.mkv.txt", 3, 3, zlib.crc32(b"end"), False, False) + b"end"
        tail += R.end_block("plain", i < n - 1, i, head)
        paths.append(os.path.join(folder, rarset.volume_name(naming, "set", i + 1, n, digits)))
        with open(paths[-1], "wb") as f:
            f.write(head)
            data.write(f, off, s)
            f.write(tail)
            vsizes.append(f.tell())
        off += s
    return paths, name, data, vsizes


def case_huge(case, d):
    """Volumes and files beyond 2 and 4 GiB (sparse files): short reads around every border; the SRR made of them."""
    from rescene.rarstream import RarStream
    import rescene
    rng = random.Random(stable_hash(case))
    b, k = case["b"], case["k"]
    paths, name, data, vsizes = build_huge(d, b["chunks"], k, rng)
    st = RarStream(paths[0], name)
    same(st.length(), data.size, "length()")
    n = 0
    for h in b["hist"]:
        if h["op"] == "seek":
            op(st, data, "seek", h["a"] * k + rng.choice([-3, -1, 0, 0, 1, 30]), h["b"])
        op(st, data, "read", rng.choice([0, 1, 10, 100, 5000]), 0)
        n += 1
    for p in data.runs:
        op(st, data, "seek", p - 5, 0) if p > 5 else op(st, data, "seek", p, 0)
        op(st, data, "read", 100, 0)
    st.close()
    srr = os.path.join(d, "big.srr")
    cli.run_child(lambda: rescene.create_srr(srr, [paths[0]], os.path.dirname(paths[0]), [], True))
    check(os.path.isfile(srr), "no SRR is made of a set with %d bytes of %d volumes", data.size, len(paths))
    check(os.path.getsize(srr) < 3000, "the SRR of a set with large volumes has %d bytes", os.path.getsize(srr))
    info = rescene.info(srr)
    same({v.file_name: v.file_size for v in info["rar_files"].values()},
         {os.path.basename(p): s for p, s in zip(paths, vsizes)}, "volume sizes in the SRR")
    got = {v.file_name: v.file_size for v in info["archived_files"].values()}
    same(got.get(name.replace("\\", "/"), got.get(name)), data.size, "size of the large file in the SRR")
    return {"ops": n}


def case_layout(case, d):
    """Every file of a generated set, by name; random walks; not-first volume; unknown names."""
    from rescene.rarstream import RarStream
    from rescene.rar import RarReader
    beh = case["b"]
    rng = random.Random(stable_hash(case))
    c = rarset.concretise(beh, case["seed"], max_total=300000, alike=True)
    folder = os.path.join(d, "v")
    rarset.write_set(c, folder)
    # a second set with the same files but other data in the same folder must not matter
    first = os.path.join(folder, c.volumes[0].name)
    n = 0
    before = rarset.read_tree(folder)
    for name, data in c.files.items():
        ask = name.replace("\\", "/") if rng.random() < .5 else name
        st = RarStream(first, ask)
        same(st.length(), len(data), "length of %r" % name)
        same(st.packed_file_name, name, "name of the file read")
        plain = io.BytesIO(data)
        marks = [0, 1, len(data) - 1, len(data), len(data) + 1]
        p = 0
        idx = [i for i, (x, _) in enumerate(c.order, 1) if x == name][0]
        for u in c.unit_len[idx]:
            p += u
            marks += [p - 1, p, p + 1]
        marks = [m for m in marks if m >= 0]
        for _ in range(case["n"]):
            w = rng.randrange(5)
            if w < 2:
                m = rng.choice(marks) if rng.random() < .8 else rng.randrange(len(data) + 2)
                whence = rng.randrange(3)
                op(st, plain, "seek", m - [0, plain.tell(), len(data)][whence], whence)
            elif w < 4:
                tgt = rng.choice(marks)
                size = rng.choice([tgt - plain.tell(), 1, 0, 2, 65536])
                op(st, plain, "read", size if size >= 0 else 3, 0)
            else:
                op(st, plain, "read", -1, 0)
            n += 1
        st.close()
    try:
        RarStream(first, "no such file.xyz")
        raise Failure("a name that is not in the archive was accepted")
    except AttributeError:
        pass
    for i, v in enumerate(c.volumes[1:], 1):
        head = [t for t in beh["vols"][i] if t["t"] in ("file", "dir")]
        if not head or not head[0]["before"]:
            continue
        path = os.path.join(folder, v.name)
        try:
            RarStream(path)
            raise Failure("volume %d was accepted as the first volume" % (i + 1))
        except AttributeError:
            pass
        if rng.random() < .5:
            # the part of the file from this volume on
            f = head[0]["f"]
            name = c.order[f - 1][0]
            a = sum(c.unit_len[f][:head[0]["pos"]])
            st = RarStream(path, name, middle=True)
            data = c.files[name][a:]
            same(st.length(), len(data), "length from a middle volume on")
            check(st.read() == data, "data from a middle volume on differs")
            st.close()
    for v in c.volumes[:3]:
        r = RarReader(os.path.join(folder, v.name))
        r.list_files()
        r.close()
    check(rarset.read_tree(folder) == before, "reading changed the volumes")
    return {"ops": n}


def case_compressed(case, d):
    """Compressed entries are refused, unless the raw data is asked for."""
    from rescene.rarstream import RarStream
    rng = random.Random(stable_hash(case))
    data = R.pattern("c", rng.choice([0, 1, 99, 70000]))
    hdr = R.file_header("m.mkv", len(data), 12345, 1, False, False, method=0x31 + case["m"])
    p = os.path.join(d, "x.rar")
    with open(p, "wb") as f:
        f.write(R.MARKER + R.main_header(False, False, False, False) + hdr + data + R.end_block("plain", False, 0, b""))
    try:
        RarStream(p, "m.mkv")
        raise Failure("a compressed file was accepted")
    except AttributeError:
        pass
    st = RarStream(p, "m.mkv", compressed=True)
    check(st.length() == len(data) and st.read() == data, "raw data of a compressed entry differs")
    st.close()


PARTS = {"history": case_history, "huge": case_huge, "layout": case_layout, "compressed": case_compressed}


def run(ctx):
    q = ctx.quick
    a = ctx.tlc("RarStream", constants=dict(MaxVols=3, ChunkLens={0, 1, 2}, MaxOps=2, ReadSizes={-1, 0, 1, 2, 3, 7}, Beyond=1),
                constraint="Emit", invariants=INVS)
    b = ctx.tlc("RarStream", constants=dict(MaxVols=5 if q else 6, ChunkLens={0, 1, 2}, MaxOps=12, ReadSizes={-1, 0, 1, 2, 3, 7}, Beyond=2),
                constraint="Emit", invariants=INVS, simulate=300 if q else 4000, depth=14)
    cases = [{"b": x, "k": 1} for x in ctx.sample(a.behaviours, 6000 if q else 100000)]
    for x in b.behaviours:
        cases.append({"b": x, "k": 1})
        cases.append({"b": x, "k": ctx.rng.choice([2, 100, 4096, 70001])})
    ctx.replay(case_history, cases, "history")
    big = ctx.sample(a.behaviours, 60 if q else 1000) + b.behaviours[:60 if q else 600]
    ctx.replay(case_huge, [{"b": x, "k": ctx.rng.choice([(1 << 31) - 20, 1 << 31, (1 << 32) - 100, (1 << 32) + 9, 5000000011])}
                           for x in big if sum(x["chunks"])], "huge")
    base = dict(MaxFiles=3, MaxUnits=3, Caps={1, 2, 3}, Namings={"old", "new", "num"}, RRs={"none", "new"}, Ends={"none", "crc"},
                Comments={"none"}, Pads={False}, Stuffs={0}, Sources={"rar"}, Sets={1}, MaxVols=9)
    r = ctx.tlc("RarSet", constants=base, constraint="Emit", invariants=["RoundTrip"])
    lay = ctx.sample(r.behaviours, 500 if q else 8000)
    ctx.replay(case_layout, [{"b": x, "seed": ctx.seed, "n": 25} for x in lay], "layout")
    ctx.replay(case_compressed, [{"m": m, "i": i} for m in range(5) for i in range(4)], "compressed")
    ctx.assumptions += ["a zero-length chunk of a split file is a legal volume layout",
                        "a seek to a negative position has to be refused, with whatever exception"]
