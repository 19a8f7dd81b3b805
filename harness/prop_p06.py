"""P06 and P19: reconstruction with wrong, missing, renamed or moved sources (spec/Rebuild.tla) and
verification of extracted files (spec/Verify.tla)."""
import json
import os
import random
import struct
import zlib
from . import rarset, rarfmt as R, cli
from .core import check, same, stable_hash, Failure
from .prop_p01 import with_events
from .tlc import Set, TLCError

INVS = ["NoSilentWrong", "OnlySelected", "NeverWithoutConsent", "FoundIfAvailable", "CompleteIfDone"]
EXTS = [".mkv", ".avi", ".txt", ".mp4", ".m2ts", ".iso", ".dat", ".ts", ".rm", ".7z", ".torrent", ".7", ".Mpg"]
UNITS = [1, 3, 100, 512, 1000, 4096, 65536, 70001]


def concrete(behs, seed):
    sets = []
    exts = list(EXTS)
    random.Random("exts|%s" % seed).shuffle(exts)
    for s, b in enumerate(behs, 1):
        c = rarset.concretise(b, seed, setnr=s, units=UNITS, exts_by=exts[(s - 1) * 4:s * 4], zeros=False)
        c.sub = "" if len(behs) == 1 else "CD%d" % s
        sets.append(c)
    return sets


def layouts(ctx, n, two, max_files=3, maxvols=5):
    """[(list of RarSet behaviours, seed, Rebuild layout record, selection strings)]"""
    r = ctx.tlc("RarSet", constants=dict(MaxFiles=max_files, MaxUnits=3, Caps={1, 2, 3}, Namings={"old", "new"}, RRs={"none", "new"},
                Ends={"crc"}, Comments={"none"}, Pads={False}, Stuffs={0}, Sources={"sfv"}, Sets={1}, MaxVols=maxvols),
                constraint="Emit", invariants=["RoundTrip"])
    ok = [b for b in r.behaviours if any(f["kind"] == "file" for f in b["files"]) and sum(f["size"] for f in b["files"]) > 1]
    small = [b for b in ok if len(b["vols"]) <= 3 and len(b["files"]) <= 2 and sum(f["size"] for f in b["files"]) < 6]
    picks = [[b] for b in ctx.sample(ok, n)]
    if two:
        for _ in range(two):
            picks.append([ctx.rng.choice(small), ctx.rng.choice(small)])
    out = []
    for i, bs in enumerate(picks, 1):
        seed = "%s|%d" % (ctx.seed, i)
        sets = concrete(bs, seed)
        sizes, dirs, vols, names = [], [], [], []
        for b, c in zip(bs, sets):
            off = len(sizes)
            sizes += [f["size"] for f in b["files"]]
            dirs += [f["kind"] == "dir" for f in b["files"]]
            vols += [[{"f": t["f"] + off, "pos": t["pos"], "len": t["len"]} for t in v if t["t"] in ("file", "dir")] for v in b["vols"]]
            names += [(c.sub + "/" if c.sub else "") + v.name for v in c.volumes]
        sels = {}
        for n in names:
            for j in range(len(n)):
                vs = tuple(k for k, m in enumerate(names, 1) if m.endswith(n[j:]))
                sels.setdefault(vs, []).append(n[j:])
            for j in range(1, len(n)):
                # a set name: everything that starts with it
                vs = tuple(k for k, m in enumerate(names, 1) if m.startswith(n[:j]))
                if n[:j] + "*" not in names:
                    sels.setdefault(vs, []).append(n[:j] + "*")
        keys = sorted(sels)
        full = tuple(range(1, len(names) + 1))
        keys = [k for k in keys if k != full]
        ctx.rng.shuffle(keys)
        keys = keys[:3]
        rec = {"id": i, "sizes": sizes, "dir": dirs, "vols": vols, "sels": [frozenset(k) for k in keys]}
        out.append((bs, seed, rec, [""] and [sels[k] for k in keys]))
    return out


def group(behs):
    """Outcomes allowed per environment."""
    d = {}
    for b in behs:
        k = json.dumps(b["env"], sort_keys=True)
        e = d.setdefault(k, {"env": b["env"], "avail": b["avail"], "outcomes": []})
        o = {"res": b["res"], "ev": b["ev"], "w": b["w"]}
        if o not in e["outcomes"]:
            e["outcomes"].append(o)
    return [d[k] for k in sorted(d)]


def put(root, rel, data):
    p = os.path.join(root, *rel.split("/"))
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)


OLDFILE = b"an older file that was here"


def case_rebuild(case, d):
    import rescene.main as rm
    env = case["env"]
    rng = random.Random(stable_hash(case))
    sets = concrete(case["layout"], case["lseed"])
    rel = os.path.join(d, "rel")
    sfvs = []
    for c in sets:
        rarset.write_set(c, os.path.join(rel, c.sub))
        sfvs.append(os.path.join(rel, c.sub, c.base + ".sfv"))
        with open(sfvs[-1], "wb") as f:
            f.write(rarset.sfv_text(c, rng))
    srr = os.path.join(d, "x.srr")
    store_paths = len(sets) > 1 or rng.random() < .3
    rm.create_srr(srr, sfvs, rel, [], store_paths, False, True)
    order = [(n, kind, c, i) for c in sets for i, (n, kind) in enumerate(c.order, 1)]
    vols = [((c.sub + "/" if c.sub else ""), v) for c in sets for v in c.volumes]
    # the source tree
    src = os.path.join(d, "src")
    os.mkdir(src)
    name, _, fc, fidx = order[env["f"] - 1]
    data = fc.files[name]
    lens = fc.unit_len[fidx]
    ext = os.path.splitext(name)[1]
    content = data
    if env["content"] == "flip":
        a = sum(lens[:env["flip"]])
        n = lens[env["flip"]]
        p = a + rng.choice([0, n - 1, rng.randrange(n)])
        content = data[:p] + bytes([data[p] ^ rng.choice([1, 0x80, 0xff])]) + data[p + 1:]
    elif env["content"] == "short":
        content = data[:len(data) - rng.choice([1, min(len(data), 70000), rng.randrange(1, len(data) + 1)])]
    elif env["content"] == "long":
        content = data + bytes(rng.choice([1, 5, 70000]))
    for i, (n, kind, c, _) in enumerate(order, 1):
        if i != env["f"] and kind == "file":
            put(src, n.replace("\\", "/"), c.files[n])
    where = None
    if env["real"] == "path":
        where = name.replace("\\", "/")
    elif env["real"] == "moved":
        where = rng.choice(["other/place/", "", "zz/"]) + rng.choice(["moved name", "0", "~"]) + ext
    elif env["real"] == "hinted":
        where = rng.choice(["h/", ""]) + "renamed" + rng.choice([".xyz", ""])
    if where:
        put(src, where, content)
    if env["decoy"]:
        put(src, "decoy dir/decoy" + ext, bytes(b ^ 0x5a for b in data))
    # files that must never be taken: right extension but another size, right size but another extension
    put(src, "aa/x" + ext, data + b"12345678")
    put(src, "ab/y.other", data[::-1])
    hints = {}
    if env["hint"] == "real":
        hints[name] = where or "not/there" + ext
    elif env["hint"] == "bad":
        hints[name] = "not/there" + ext
    elif env["hint"] == "decoy":
        hints[name] = "decoy dir/decoy" + ext
    sbefore = rarset.read_tree(src)
    out = os.path.join(d, "out")
    os.mkdir(out)
    # CDs may hold volumes of the same name
    paths = store_paths and (len(sets) > 1 or rng.random() < .7)
    opath = {v: (pre if paths else "") + vol.name for v, (pre, vol) in enumerate(vols, 1)}
    existing = None
    if env["out"] != "free":
        existing = opath[env["at"]]
        put(out, existing, OLDFILE * 4000)
    part = ""
    if env["sel"]:
        part = rng.choice([p for p in case["parts"] if not (p.endswith("/") )])
    ev = []
    if case.get("cli"):
        args = [srr, "-i", src, "-o", out] + (["-p"] if paths else []) + (["-u"] if env["skip"] else []) + (["-r"] if env["auto"] else []) \
            + (["-m", part] if part else []) + {"yes": ["-y"], "no": ["-n"], "free": [rng.choice(["-n", "-y"])]}[env["out"]]
        if hints:
            args += ["-H", ";".join("%s:%s" % kv for kv in sorted(hints.items()))]
        if rng.random() < .3 and env["out"] in ("yes", "no"):
            args = [a for a in args if a not in ("-y", "-n")]
            r = cli.srr(args, stdin={"yes": "maybe\n\nY\ny\n", "no": "x\nyn\nn\n"}[env["out"]] * 3, cwd=d)
        else:
            r = cli.srr(args, cwd=d)
        text = r.out + r.err
        crc = "CRC mismatch" in text
        if r.code == 0:
            result = "denied" if "Operation aborted" in text else "done"
        elif r.code == 1:
            check("does not exist" in r.err, "%r", r)
            result = "notfound"
        elif r.code == 99:
            check("not the correct size" in r.err, "%r", r)
            result = "size"
        else:
            raise Failure("reconstruction: %r" % r)
        for c, s in zip(sets, sfvs):               # stored SFV files come out too unless volumes were selected
            f = os.path.join(out, os.path.relpath(s, rel) if paths else os.path.basename(s))
            if os.path.exists(f):
                check(not part, "stored file written although volumes were selected")
                os.unlink(f)
    else:
        old = rm.can_overwrite
        consent = env["out"] == "yes"
        rm.can_overwrite = lambda p: consent or not os.path.isfile(p)
        try:
            try:
                res, _ = with_events(lambda: rm.reconstruct(srr, src, out, paths, hints, env["skip"], env["auto"], False, None, None,
                                                            False, part), ev)
                result = "denied" if res == -1 else "done"
            except rm.FileNotFound:
                result = "notfound"
            except rm.InvalidFileSize:
                result = "size"
        finally:
            rm.can_overwrite = old
        crc = any(e.code == rm.MsgCode.CRC for e in ev)
    got = {k: v for k, v in rarset.read_tree(out).items() if not k.endswith("/")}
    ok = {v: got[opath[v]] == vol.data for v, (pre, vol) in enumerate(vols, 1) if opath[v] in got}
    if existing and env["out"] == "no":
        same(got.get(existing), OLDFILE * 4000, "existing volume kept without consent")
    reasons = []
    for o in case["outcomes"]:
        why = None
        if o["res"] != result:
            why = "result %s" % o["res"]
        elif crc != o["ev"]:
            why = "checksum mismatch reported: %s" % o["ev"]
        else:
            full = o["w"] if result in ("done", "denied") else o["w"][:-1]
            for x in full:
                if ok.get(x["v"]) is not x["ok"]:
                    why = "volume %d right: %s" % (x["v"], x["ok"])
                    break
            extra = set(ok) - {x["v"] for x in o["w"]} - ({env["at"]} if existing else set())
            if extra and not why:
                why = "volumes %s not written" % sorted(extra)
        if why is None:
            break
        reasons.append(why)
    else:
        raise Failure("selected %r: result %s, checksum mismatch reported %s, volumes right %s; specification: %s" % (
            part, result, crc, ok, "; or ".join(sorted(set(reasons)))))
    stray = set(got) - set(opath.values())
    check(not stray, "unexpected files %s", sorted(stray))
    check(rarset.read_tree(src) == sbefore, "the source files were changed")
    return {result: 1, "crc_events": int(crc)}


def case_verify(case, d):
    env = case["env"]
    rng = random.Random(stable_hash(case))
    src = os.path.join(d, "src")
    os.mkdir(src)
    blocks = R.MARKER + R.main_header()
    for i, p in enumerate(env["files"], 1):
        ext = ".e%d" % i
        name = rng.choice(["", "dir\\", "a\\b\\"]) + "f%d" % i + ext
        data = b"" if p in ("empty", "emptygone", "dir") else R.pattern("v%d%s" % (i, p), rng.choice([1, 20, 5000, 70000]))
        blocks += R.file_header(name, len(data), len(data), zlib.crc32(data), directory=p == "dir")
        path = name.replace("\\", "/")
        if p in ("ok", "empty"):
            put(src, path, data)
        elif p == "dir":
            os.makedirs(os.path.join(src, path), exist_ok=True)
        elif p == "corrupt":
            k = rng.randrange(len(data))
            put(src, path, data[:k] + bytes([data[k] ^ 1]) + data[k + 1:])
        elif p == "truncated":
            put(src, path, data[:-1])
        elif p == "moved":
            todo = [("elsewhere/q" + ext, data)]
            if rng.random() < .6:               # others of the same size around it
                todo += [(rng.choice(["elsewhere/p", "p%d" % k, "a/p%d" % k, "elsewhere/z/p%d" % k, "zz/p%d" % k]) + ext, bytes(b ^ k for b in data))
                         for k in range(1, rng.choice([2, 3, 5]))]
            rng.shuffle(todo)
            for where, what in todo:
                put(src, where, what)
        elif p == "decoy":
            put(src, "elsewhere/q" + ext, bytes(b ^ 1 for b in data))
    blocks += R.end_block("plain", False, 0, b"")
    srr = os.path.join(d, "v.srr")
    with open(srr, "wb") as f:
        f.write(R.srr_header("x" * 20) + (R.srr_rar("v.rar") + blocks if env["files"] else R.srr_stored("m.nfo", b"hello")))
    before = rarset.read_tree(src)
    if case.get("cli"):
        r = cli.srr([srr, "-q", "-i", src] + (["-r"] if env["auto"] else []), cwd=d)
        st = r.code
        if env["files"]:
            check(("All files OK" in r.out) == (st == 0), "%r", r)
    else:
        from rescene import srr as m
        st = m.verify_extracted_files(srr, src, env["auto"])
    check(st in case["st"], "verification status %r, specification %r", st, case["st"])
    check(rarset.read_tree(src) == before, "verification changed the files")
    return {"status%d" % st: 1}


def case_stuffed(case, d):
    import rescene.main as rm
    b, env = case["b"], case["b"]["env"]
    rng = random.Random(stable_hash(case))
    n = rng.choice([1, 2, 700, 32768, 65535, 65536, 65537])

    def units(us):
        res = b""
        for u in us:
            if u == 0 or u == 99:
                res += (b"\0" if u == 0 else b"\x5a") * n
            else:
                data = R.pattern("s%d" % (u % 100), n)
                res += data if u < 100 else data[:n // 2] + bytes([data[n // 2] ^ 1]) + data[n // 2 + 1:]
        return res

    data, source = units(b["data"]), units(b["source"])
    name = rng.choice(["m.mkv", "sub\\m.mkv"])
    rel = os.path.join(d, "rel")
    packed, at, vols = [units(p) for p in b["packed"]], 0, []
    for j, (p, us) in enumerate(zip(packed, b["packed"])):
        last = j == len(packed) - 1
        crc = zlib.crc32(data if last else p)
        h = R.file_header(name, len(p), len(data) if env["sized"] else 0xffffffff, crc, j > 0, not last)
        blocks = R.MARKER + R.main_header(len(packed) > 1, False, j == 0, False) + h + p
        vols.append(("x.rar" if j == 0 else "x.r%02d" % (j - 1), blocks + R.end_block("plain", not last, j, b"")))
        put(rel, vols[-1][0], vols[-1][1])
    put(rel, "x.sfv", b"".join(b"%s %08x\r\n" % (n.encode(), zlib.crc32(v)) for n, v in vols))
    srr = os.path.join(d, "x.srr")
    check(rm.create_srr(srr, [os.path.join(rel, "x.sfv")], rel, [], False, False, rng.random() < .5) is True, "creating the SRR fails")
    src = os.path.join(d, "src")
    put(src, name.replace("\\", "/"), source)
    out = os.path.join(d, "out")
    os.mkdir(out)
    ev = []
    try:
        with_events(lambda: rm.reconstruct(srr, src, out, False, {}, env["skip"], rng.random() < .3), ev)
        result = "done"
    except rm.InvalidFileSize:
        result = "size"
    same(result, b["result"], "result of the reconstruction")
    bad = any(e.code == rm.MsgCode.CRC for e in ev)
    same(bad, b["bad"], "checksum mismatch reported")
    got = rarset.read_tree(out)
    if result == "done":
        same([got.get(n) == v for n, v in vols], b["right"], "volumes that are right")
        same([len(got[n]) for n, v in vols], [len(v) for n, v in vols], "sizes of the volumes")
    return {result: 1, "reported": int(bad)}


def faked(vol, toks, lost):
    """The volume with zeros where data of the lost files was; the recovery record protects what is there."""
    data = b""
    pos = 0
    for (kind, hdr, _, n), t in zip(vol.tokens, toks):
        pos += len(hdr)
        payload = vol.data[pos:pos + n]
        pos += n
        data += hdr
        if kind == "file" and t["f"] in lost:
            payload = bytes(n)
        elif kind == "rrnew":
            sectors = struct.unpack_from("<I", hdr, len(hdr) - 12)[0]
            payload = R.rr_parity(data[:-len(hdr)], sectors)[1]
        data += payload
    return data


def case_fake(case, d):
    """Fake data for lost files on request."""
    import rescene.main as rm
    b = case["b"]
    rng = random.Random(stable_hash(case))
    sets = concrete(case["layout"], case["lseed"])
    rel, src, out = (os.path.join(d, x) for x in ("rel", "src", "out"))
    os.mkdir(src)
    os.mkdir(out)
    sfvs = []
    for c in sets:
        rarset.write_set(c, os.path.join(rel, c.sub))
        sfvs.append(os.path.join(rel, c.sub, c.base + ".sfv"))
        with open(sfvs[-1], "wb") as f:
            f.write(rarset.sfv_text(c, rng))
    srr = os.path.join(d, "x.srr")
    paths = len(sets) > 1 or rng.random() < .3
    rm.create_srr(srr, sfvs, rel, [], paths, False, True)
    order = [(n, kind, c) for c in sets for n, kind in c.order]
    for (n, kind, c), st in zip(order, b["st"]):
        if kind == "file" and st != "gone":
            put(src, n.replace("\\", "/"), c.files[n] + (b"" if st == "there" else b"0" * rng.choice([1, 5000])))
    before = rarset.read_tree(src)
    vols, off = [], 0
    for c, beh in zip(sets, case["layout"]):
        lost = {i for i in range(1, len(c.order) + 1) if b["st"][off + i - 1] == "gone"}
        vols += [((c.sub + "/" if c.sub else "") if paths else "", vol, faked(vol, toks, lost)) for vol, toks in zip(c.volumes, beh["vols"])]
        off += len(c.order)
    part = rng.choice([p for p in case["parts"] if not p.endswith("/")]) if b["sel"] else ""
    ev, text = [], ""
    if case.get("cli"):
        r = cli.srr([srr, "-i", src, "-o", out, "-n"] + (["-p"] if paths else []) + (["-u"] if b["skip"] else []) + (["-m", part] if part else [])
                    + ([rng.choice(["-f", "--fake-file"])] if b["fake"] else []), cwd=d)
        check(r.code not in ("hang", 96), "%s: %r", b, r)
        check((r.code == 0) == (b["result"] == "done"), "%s: %r", b, r)
        result, bad = b["result"], "CRC mismatch" in r.out + r.err
        for s in sfvs:
            f = os.path.join(out, os.path.relpath(s, rel) if paths else os.path.basename(s))
            if os.path.exists(f):
                os.unlink(f)
    else:
        try:
            with_events(lambda: rm.reconstruct(srr, src, out, paths, {}, b["skip"], rng.random() < .3, b["fake"], None, None, False, part), ev)
            result = "done"
        except rm.FileNotFound:
            result = "notfound"
        except rm.InvalidFileSize:
            result = "size"
        bad = any(e.code == rm.MsgCode.CRC for e in ev)
    what = "files %s, fake %s, selected %r" % (b["st"], b["fake"], part)
    same(result, b["result"], what + ": result")
    got = {k: v for k, v in rarset.read_tree(out).items() if not k.endswith("/")}
    same(bad, b["bad"], what + ": checksum mismatch reported")
    for x in b["out"] if result == "done" else b["out"][:-1]:
        pre, vol, want = vols[x["v"] - 1]
        data = got.get(pre + vol.name)
        same(data == vol.data, x["right"], what + ": volume %d is the original" % x["v"])
        check(data == want, "%s: volume %d is not the original with zeros for the lost files", what, x["v"])
    if result == "done":
        same(sorted(got), sorted(vols[x["v"] - 1][0] + vols[x["v"] - 1][1].name for x in b["out"]), what + ": volumes made")
    check(rarset.read_tree(src) == before, "the source files were changed")
    return {result: 1, "reported": int(bad)}


PARTS = {"fake": case_fake, "fakecli": case_fake, "stuffed": case_stuffed, "rebuild": case_rebuild, "cli": case_rebuild, "verify": case_verify, "verifycli": case_verify}


def rebuild_cases(ctx, lay, **consts):
    recs = [l[2] for l in lay]
    r = ctx.tlc("Rebuild", constants=dict(Layouts=Set(recs), **consts), constraint="Emit", invariants=INVS)
    byid = {l[2]["id"]: l for l in lay}
    cases = []
    for g in group(r.behaviours):
        bs, seed, rec, sels = byid[g["env"]["layout"]]
        cases.append({"env": g["env"], "outcomes": g["outcomes"], "avail": g["avail"], "layout": bs, "lseed": seed,
                      "parts": sels[g["env"]["sel"] - 1] if g["env"]["sel"] else []})
    return cases


def run(ctx):
    q = ctx.quick
    lay = layouts(ctx, 4 if q else 24, 1 if q else 8)
    cases = rebuild_cases(ctx, lay, Reals={"path", "moved", "hinted", "none"}, Contents={"right", "flip", "short", "long"},
                          Hints={"none", "real", "bad", "decoy"}, Outs={"free", "yes", "no"})
    odd = [c for c in cases if not c["avail"]]
    ctx.replay(case_rebuild, ctx.sample(odd, 2200 if q else 30000), "rebuild")
    ctx.replay(case_rebuild, [dict(c, cli=1) for c in ctx.sample(odd, 120 if q else 2000)], "cli")
    r = ctx.tlc("Verify", constants=dict(MaxFiles=3, Places={"ok", "corrupt", "truncated", "gone", "moved", "decoy", "dir", "empty", "emptygone"}),
                constraint="Emit", invariants=["ZeroIffAllGood"])
    cases = [dict(b) for b in r.behaviours]
    ctx.replay(case_verify, ctx.sample(cases, 700 if q else 5000), "verify")
    ctx.replay(case_verify, [dict(c, cli=1) for c in ctx.sample(cases, 40 if q else 400)], "verifycli")
    seqs = [[a] for a in (1, 2, 3)] + [[a, c] for a in (1, 2) for c in (0, 1)] + [[1, 1, 1]]
    r = ctx.tlc("Stuffed", constants=dict(Parts=Set(seqs), Stuffs={0, 1, 2}, MaxExtra=2), constraint="Emit",
                invariants=["NeverSilent", "RightSource", "SizesKept"])
    ctx.replay(case_stuffed, [{"b": x} for x in ctx.sample(r.behaviours, 900 if q else 10000)], "stuffed")
    recs = [l[2] for l in lay]
    r = ctx.tlc("Fake", constants=dict(Layouts=Set(recs), Faulty="none"), constraint="Emit", invariants=["NeverSilent", "OnlyLost", "NoneLost", "OnRequest"])
    if ctx.tlc("Fake", constants=dict(Layouts=Set(recs), Faulty="quiet"), invariants=["NeverSilent"], expect_fail=True).accepted:
        raise TLCError("Fake no longer refutes silence")
    byid = {l[2]["id"]: l for l in lay}
    cases = [{"b": x, "layout": byid[x["id"]][0], "lseed": byid[x["id"]][1], "parts": byid[x["id"]][3][x["sel"] - 1] if x["sel"] else []} for x in r.behaviours]
    used = [c for c in cases if c["b"]["result"] == "done" and c["b"]["fake"] and "gone" in c["b"]["st"]]
    ctx.replay(case_fake, ctx.sample(cases, 200 if q else 3000) + ctx.sample(used, 250 if q else 4000), "fake")
    # processes of their own: messages of earlier cases would be printed
    ctx.replay(case_fake, [dict(c, cli=1) for c in ctx.sample(cases, 30 if q else 400) + ctx.sample(used, 40 if q else 400)], "fakecli")
    ctx.assumptions += ["the unusual source is one file of the set; wrong contents have a different CRC-32"]
