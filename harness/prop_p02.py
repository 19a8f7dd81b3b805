"""P02: the listing of an SRR and what creation puts in it (spec/SrrList.tla, spec/SrrCreate.tla,
layouts from spec/RarSet.tla)."""
import os
import random
import re
import zlib
from . import rarset, srrmodel as M, rarfmt as R, cli
from .core import check, same, stable_hash
from .tlc import Set, Fn

SFVS = {
    10: [["v1.rar", 1], ["V1.R00", 2], ["other.avi", 3]],
    11: [["V2.RAR", 4], ["name with spaces.mkv", 5]],
    12: [],
    13: [["v1.rar", 6], ["p.part10.rar", 7]],
    14: [["p.Part10.rar", 2], ["v2.rar", 5]],
    15: [["P.part10.rar", 4], ["gone.rar", 3]],
}
CRCS = {1: "0000ab12", 2: "DEADBEEF", 3: "1f", 4: "ABCDEF01", 5: "99999999", 6: "00000000", 7: "0a0b0c0d"}
COMMENTS = {10: ["; generated", "; by a tool"], 11: [], 12: ["; nothing else"], 13: [";x"], 14: [], 15: ["; disc"]}


def sfv_bytes(d):
    lines = list(COMMENTS[d]) + ["%s %s" % (n, CRCS[c]) for n, c in SFVS[d]]
    return ("\r\n".join(lines) + "\r\n").encode("latin-1")


def data_of(d, name=""):
    if d in SFVS and name.lower().endswith(".sfv"):
        return sfv_bytes(d)
    if name.lower().endswith(".sfv"):
        raise ValueError(name)
    return M.content(d)


STORED = [["a.nfo", 1], ["dir/b b.txt", 0], ["x.sfv", 10], ["Dir/Y.SFV", 11], ["\u00e9\u4e2d.jpg", 4], ["dir/A.NFO", 3], ["z.sfv", 12],
          ["w.sfv", 13], ["e.srs", 5], ["CD2/p.sfv", 14], ["cd1/P.sfv", 15]]
VOLS = [["v1.rar", 0], ["v1.r00", 1], ["CD2/V2.rar", 2], ["CD2/p.part10.rar", 3], ["CD1/p.part10.rar", 0], ["CD1/v2.rar", 5], ["v3.rar", 4], ["v3.r00", 5], ["\u00fc.rar", 6],
        ["v1.rar", 1], ["V1.r00", 3], ["v4.rar", 7], ["v4.r00", 8]]
OSOS = [["m.mkv", 1], ["\u00e9.avi", 2]]


def key(n):
    return n.split("/")[-1].lower()


def expected_info(out):
    vols = []
    arch = []
    rec = None
    for v in out["vols"]:
        blocks = M.vol_blocks(v["n"], v["d"])
        vols.append((v["n"], sum(b[1] for b in blocks), CRCS[v["c"]].rjust(8, "0").upper() if v["c"] else None))
        for raw, size, kind, inf in blocks:
            if kind == "file":
                arch.append((inf[0], inf[1], "%08X" % inf[2]))
            elif kind == "rr":
                if rec is None:
                    rec = [inf[0], 0]
                rec[1] += inf[1]
    return {"appname": out["app"],
            "stored": [(s["n"], len(data_of(s["d"], s["n"]))) for s in out["stored"]],
            "vols": vols, "archived": arch, "recovery": tuple(rec) if rec else None,
            "sfv": [(e["n"], CRCS[e["c"]].rjust(8, "0").upper()) for e in out["sfv"]],
            "comments": [c for s in out["stored"] if s["n"].lower().endswith(".sfv") for c in COMMENTS[s["d"]]],
            "oso": [(o["n"], 131072 + o["d"]) for o in out["oso"]]}


def view(i):
    """The parts of info() that the property is about."""
    return {"appname": i["appname"],
            "stored": [(f.file_name, f.file_size) for f in i["stored_files"].values()],
            "vols": [(f.file_name, f.file_size, getattr(f, "crc32", None)) for f in i["rar_files"].values()],
            "archived": [(f.file_name, f.file_size, f.crc32) for f in i["archived_files"].values()],
            "recovery": (i["recovery"].file_name, i["recovery"].file_size) if i["recovery"] else None,
            "sfv": [(e.file_name, e.crc32.upper()) for e in i["sfv_entries"]],
            "comments": list(i["sfv_comments"]),
            "oso": [(n, s) for n, h, s in i["oso_hashes"]]}


def compare(got, want):
    for k in want:
        same(got[k], want[k], "listing field %s" % k)


def ungroup(s):
    """Digits may be grouped according to the locale."""
    m = re.match(r"\s*([\d.,\u00a0\u202f ]*\d)  (.*)$", s)
    return (re.sub(r"\D", "", m.group(1)), m.group(2)) if m else s


def check_cli_listing(srr, want, d):
    r = cli.srr([srr, "-l"], cwd=d)
    check(r.code == 0, "listing failed: %r", r)
    sect = None
    got = {}
    for line in r.out.splitlines():
        if not line.startswith("\t") and line.endswith(":"):
            sect = line[:-1]
        elif line.startswith("\t"):
            got.setdefault(sect, []).append(line[1:])
    same(got.get("Creating Application", [""])[0].strip(), (want["appname"] or "Unknown").strip(), "-l application")
    same([ungroup(x) for x in got.get("Stored files", [])], [(str(n), f) for f, n in want["stored"]], "-l stored files")
    same(got.get("RAR files", []), ["%s %s %d" % (n, c, s) if c else "%s %d" % (n, s) for n, s, c in want["vols"]], "-l volumes")
    same(got.get("Archived files", []), ["%s %s %d" % (n, c, s) for n, s, c in want["archived"]], "-l archived files")
    same([(x.rsplit(" ", 2)[0], int(x.rsplit(" ", 2)[2])) for x in got.get("ISDb hashes", [])], want["oso"], "-l hashes")
    same(got.get("SFV comments", []), want["comments"], "-l comments")


def case_list(case, d):
    import rescene.main as rm
    b = case["b"]
    data = M.srr_bytes(b["parts"], data_of)
    if len(data) < 20:
        return {"too_small": 1}
    p = os.path.join(d, "x.srr")
    with open(p, "wb") as f:
        f.write(data)
    want = expected_info(b["out"])
    compare(view(rm.info(p)), want)
    i = rm.info(p)
    check(i["compression"] is False, "store-mode SRR listed as compressed")
    h = [x[1] for x in i["oso_hashes"]]
    same(h, ["%016x" % (0x0123456789abcdef ^ (o["d"] * 0x1111)) for o in b["out"]["oso"]], "ISDb hash values")
    # stored files come out with identical bytes
    out = os.path.join(d, "out")
    os.mkdir(out)
    res = rm.extract_files(p, out, True)
    want_files = {s["n"]: data_of(s["d"], s["n"]) for s in b["out"]["stored"]}
    got = {k: v for k, v in rarset.read_tree(out).items() if not k.endswith("/")}
    dd = rarset.diff_tree(want_files, got)
    check(not dd, "extracted stored files differ: %s", dd)
    same([x[1] for x in res], [True] * len(want_files), "extraction results")
    same(open(p, "rb").read(), data, "SRR after listing and extracting")
    if case.get("cli"):
        check_cli_listing(p, want, d)
        check(cli.srr([p, "-e"], cwd=d).code == 0, "detailed listing failed")
    return {"stored": len(want_files), "volumes": len(want["vols"])}


ITEMS = {"nfo": "rel.nfo", "sub": "Sample/s.srs", "deep": "Proof/deep er/p-\u00e9.jpg", "empty": "empty.txt", "big": "Cover/big.jpg",
         "miss": "nothere.nfo", "out": None, "glob": "odd [1].txt"}


def case_create(case, d):
    import rescene
    import rescene.main as rm
    b, beh, seed = case["b"], case["layout"], case["seed"]
    rng = random.Random(stable_hash(case))
    rel = os.path.join(d, "a", "Rel-GRP")
    os.makedirs(rel)
    req = b["req"]
    files = {}
    for k in ITEMS:
        if k == "miss":
            continue
        data = {"empty": b"", "big": R.pattern("big", 70000)}.get(k, R.pattern(k, 37 + len(k)))
        p = os.path.join(rel, *ITEMS[k].split("/")) if k != "out" else os.path.join(d, "a", "other", "o.txt")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        files[k] = (p, data)
    sets = []
    base = "same.name-grp" if req["paths"] and rng.random() < .5 else None        # CD1/same.name-grp.rar, CD2/same.name-grp.rar
    for s in range(1, len(req["src"]) + 1):
        units = None if rng.random() < .6 else [65536, 65535, 70000, 40000]
        c = rarset.concretise(beh, seed, setnr=s, base=base, units=units, alike=True, exts=[".mkv", ".avi", ".txt", ".mp4", ".MKV"])
        c.sub = "" if len(req["src"]) == 1 else "CD%d" % s
        c.dir = os.path.join(rel, c.sub)
        rarset.write_set(c, c.dir)
        c.extra = [("%s.%s" % (c.base, x), y) for x, y in rng.choice([[], [("nfo", 0x1234)], [("avi", 1), ("mp3", 0xffffffff)]])]
        c.sfvname = c.base + ".sfv"
        c.sfvdata = rarset.sfv_text(c, rng, c.extra)
        if req["src"][s - 1] == "sfv":
            with open(os.path.join(c.dir, c.sfvname), "wb") as f:
                f.write(c.sfvdata)
        sets.append(c)
    infiles = [os.path.join(c.dir, c.sfvname if req["src"][i] == "sfv" else c.volumes[0].name) for i, c in enumerate(sets)]
    store = []
    for it in req["store"]:
        if it == "miss":
            store.append(ITEMS[it])
        elif it == "out" or rng.random() < .4:
            store.append(files[it][0] if it != "miss" else ITEMS[it])
        else:
            store.append(ITEMS[it])
    before = rarset.read_tree(os.path.join(d, "a"))
    p = os.path.join(d, "x.srr")
    app = rng.choice(["pyReScene test", "\u00fcber app", "x" * 300])
    old = rescene.APPNAME
    if case.get("cli"):
        app = None
        args = infiles + ["-i", rel, "-o", p, "-y"] + (["-p"] if req["paths"] else []) + ([] if req["oso"] else ["--no-isdb"])
        for s in store:
            args += ["-s", s]
        r = cli.srr(args, cwd=d)
        check(r.code == 0, "creation failed: %r", r)
    else:
        rm.change_rescene_name_version(app)
        try:
            ok = rm.create_srr(p, infiles, rel, list(store) if rng.random() < .9 or store else None, req["paths"], False, req["oso"])
        finally:
            rescene.APPNAME = old
        check(ok is True, "create_srr returned %r", ok)
    same(sorted(rarset.read_tree(os.path.join(d, "a"))), sorted(before), "release folder after creation")
    data = open(p, "rb").read()
    # the exact file the specification prescribes
    want = b""
    stored = []
    osos = []
    for part in b["out"]:
        k = part["k"]
        if k == "hdr":
            name = app
            if app is None:
                name = M.split(data)[0][1]
            want += R.srr_header(name)
        elif k == "st":
            path, dat = files[part["item"]]
            n = os.path.basename(path) if part["as"] == "base" else ITEMS[part["item"]]
            want += R.srr_stored(n, dat)
            stored.append((n, dat))
        elif k == "sfv":
            c = sets[part["set"] - 1]
            n = (c.sub + "/" if c.sub and part["as"] == "rel" else "") + c.sfvname
            want += R.srr_stored(n, c.sfvdata)
            stored.append((n, c.sfvdata))
        elif k == "set":
            c = sets[part["set"] - 1]
            want += rarset.srr_volume_bytes(c, c.sub + "/" if c.sub and part["as"] == "rel" else "")
        elif k == "oso":
            c = sets[part["set"] - 1]
            for n, kind in c.order:
                if kind == "file" and os.path.splitext(n)[1].lower() in (".mkv", ".avi", ".mp4") and len(c.files[n]) >= 65536:
                    h = R.osohash(c.files[n])
                    base = n.split("\\")[-1]
                    want += R.srr_oso(base, len(c.files[n]), h.to_bytes(8, "little"))
                    osos.append((base, len(c.files[n])))
    if data != want:
        i = next((i for i, (x, y) in enumerate(zip(data, want)) if x != y), min(len(data), len(want)))
        raise_diff(data, want, i)
    if len(data) < 20:
        return {}
    i = rm.info(p)
    v = view(i)
    same(v["stored"], [(n, len(x)) for n, x in stored], "stored files")
    vols = []
    extra = []
    for n, c in enumerate(sets):
        pre = c.sub + "/" if c.sub and req["paths"] else ""
        sf = req["src"][n] == "sfv"
        for vol in c.volumes:
            vols.append((pre + vol.name, len(vol.data), "%08X" % zlib.crc32(vol.data) if sf else None))
        if sf:
            extra += [(a, "%08X" % q) for a, q in c.extra]
    same(v["vols"], vols, "volumes")
    same(sorted(v["sfv"]), sorted(extra), "other SFV entries")
    arch = [(n, len(c.files.get(n, b"")), "%08X" % zlib.crc32(c.files.get(n, b""))) for c in sets for n, kind in c.order]
    same(v["archived"], arch, "archived files")
    rec = sum(c.recovery_size for c in sets)
    same(v["recovery"], (sets[0].recovery, rec) if sets[0].recovery else None, "recovery record")
    same(v["oso"], osos, "hashes")
    check(i["compression"] is False, "listed as compressed")
    return {"volumes": len(vols), "stored": len(stored)}


def raise_diff(data, want, i):
    from .core import Failure
    raise Failure("SRR differs from the specified one at byte %d (lengths %d, %d): %r instead of %r" % (
        i, len(data), len(want), data[max(0, i - 8):i + 24], want[max(0, i - 8):i + 24]))


def case_compressed(case, d):
    """Compressed entries: refused by default, listed as compressed when allowed, stored hash only for stored files."""
    import rescene.main as rm
    rng = random.Random(stable_hash(case))
    blocks = R.MARKER + R.main_header()
    kinds = case["kinds"]
    for i, k in enumerate(kinds):
        data = R.pattern("c%d" % i, 100 + i)
        m = {"store": 0x30, "fast": 0x31, "best": 0x35}[k]
        blocks += R.file_header("f%d.mkv" % i, len(data), len(data) * (1 if k == "store" else 3), zlib.crc32(data), method=m) + data
    blocks += R.end_block("plain", False, 0, b"")
    rar = os.path.join(d, "c.rar")
    open(rar, "wb").write(blocks)
    srr = os.path.join(d, "c.srr")
    comp = any(k != "store" for k in kinds)
    try:
        rm.create_srr(srr, [rar], d, [], False, False, True)
        res = "ok"
    except ValueError:
        res = "refused"
    same(res, "refused" if comp else "ok", "creating without the compressed option")
    check(os.path.exists(srr) == (not comp), "SRR file present after %s", res)
    if os.path.exists(srr):
        os.unlink(srr)
    check(rm.create_srr(srr, [rar], d, [], False, True, True) is True, "not created")
    i = rm.info(srr)
    check(i["compression"] is comp, "compression flag is %r", i["compression"])
    same([(f.file_name, f.file_size, f.compression) for f in i["archived_files"].values()],
         [("f%d.mkv" % n, (100 + n) * (1 if k == "store" else 3), k != "store") for n, k in enumerate(kinds)], "archived files")
    return {}


def case_sizes(case, d):
    """Listed.tla: sizes and checksums of archived files in block headers of volumes of any size, true or unknown."""
    import rescene.main as rm
    b = case["b"]
    rng = random.Random(stable_hash(case))
    unit = rng.choice([1, 100, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, 5000000001])
    vols, want, cur, vsizes = [], [], -1, []
    pre = R.MARKER + R.main_header(True, rng.random() < .5, False, False)
    for i, f in enumerate(b["files"]):
        name = rng.choice(["f%d.mkv", "dir\\f%d.bin", "F%d.R\u00e4.avi"]) % i
        sizes = [n * unit + (rng.choice([0, 0, 1, 5]) if n else 0) for n in f["pieces"]]
        if f["mark"] == "u64" and sum(sizes) == 0xffffffff:      # reads as "unknown": no packer of this kind makes it
            sizes[-1] += 1
        total = sum(sizes) + (rng.choice([1, 1 << 32]) if f["z"] else 0)
        crcs = [rng.choice([0, 1, 0xABCD, rng.randrange(1 << 32)]) for _ in sizes]
        large = rng.random() < .5 or f["mark"] == "u64" or total >= 1 << 32
        cur += 0 if f["same"] else 1
        for k, s in enumerate(sizes):
            cur += 1 if k else 0
            while len(vols) <= cur:
                vols.append(pre)
                vsizes.append(len(pre))
            last = k == len(sizes) - 1
            unp = total
            if f["mark"] == "u32":
                unp = 0xffffffff
            elif f["mark"] == "u64" and not last:
                unp = 0xffffffffffffffff
            h = R.file_header(name, s, unp, crcs[k], k > 0, not last, method=0x33 if f["z"] else 0x30, large=large or s >= 1 << 32,
                              unicode_="\u00e4" in name)
            vols[cur] += h
            vsizes[cur] += len(h) + s
        want.append((name.replace("\\", "/"), total, "%08X" % crcs[-1]))
    data = R.srr_header("x")
    names = ["set.rar"] + ["set.r%02d" % n for n in range(20)]
    for i, v in enumerate(vols):
        e = R.end_block("plain", i < len(vols) - 1, i, v)
        data += R.srr_rar(names[i]) + v + e
        vsizes[i] += len(e)
    p = os.path.join(d, "x.srr")
    with open(p, "wb") as f:
        f.write(data)
    i = rm.info(p)
    same([(x.file_name.replace("\\", "/"), x.file_size, x.crc32) for x in i["archived_files"].values()], want, "listed archived files")
    same([(x.file_name, x.file_size) for x in i["rar_files"].values()], list(zip(names, vsizes)), "listed volumes")
    same(bool(i["compression"]), any(f["z"] for f in b["files"]), "listed as compressed")
    return {"files": len(want)}


PARTS = {"sizes": case_sizes, "list": case_list, "create": case_create, "compressed": case_compressed}


def run(ctx):
    P = lambda k, x: [{"k": k, "n": n, "d": d} for n, d in x]
    folder = {d: n.rsplit("/", 1)[0] + "/" if "/" in n else "" for n, d in STORED if n.lower().endswith(".sfv")}
    sfvof = Fn({d: [{"n": n, "c": c, "f": (folder[d] + n).lower()} for n, c in e] for d, e in SFVS.items()})
    names = {n for n, d in VOLS} | {n for e in SFVS.values() for n, c in e}
    base = dict(Apps={"app", ""}, Stored=Set(P("st", STORED)), Vols=Set(P("vol", VOLS)), Osos=Set(P("oso", OSOS)), SfvOf=sfvof,
                IsSfv={n for n, d in STORED if n.lower().endswith(".sfv")}, KeyOf=Fn({n: key(n) for n in names}), Lower=Fn({n: n.lower() for n, d in VOLS}),
                MaxParts=4, Free=False)
    beh = []
    r = ctx.tlc("SrrList", constants=dict(base, Apps={"app"}, MaxParts=4 if ctx.quick else 5), constraint="Emit", invariants=["Faithful"])
    beh += ctx.sample(r.behaviours, 900 if ctx.quick else 12000)
    r = ctx.tlc("SrrList", constants=dict(base, Free=True, Apps={"", "\u00e9 app 1.0"}, MaxParts=4), constraint="Emit", invariants=["Faithful"])
    beh += ctx.sample(r.behaviours, 500 if ctx.quick else 6000)
    r = ctx.tlc("SrrList", constants=dict(base, Free=True, MaxParts=13), constraint="Emit", invariants=["Faithful"],
                simulate=60 if ctx.quick else 600, depth=30)
    beh += ctx.sample([b for b in r.behaviours if len(b["parts"]) > 6], 400 if ctx.quick else 4000)
    cases = [{"b": b} for b in beh]
    for c in ctx.rng.sample(cases, 60 if ctx.quick else 600):
        c["cli"] = 1
    ctx.replay(case_list, cases, "list")
    li = ctx.tlc("Listed", constants=dict(MaxFiles=2, MaxPieces=3, Pieces={0, 1, 2}, Marks={"real", "u32", "u64"}), constraint="Emit",
                 invariants=["SizeRight", "CrcRight"])
    more = ctx.tlc("Listed", constants=dict(MaxFiles=4, MaxPieces=4, Pieces={0, 1, 2}, Marks={"real", "u32", "u64"}), constraint="Emit",
                   invariants=["SizeRight", "CrcRight"], simulate=60 if ctx.quick else 1000, depth=30)
    ctx.replay(case_sizes, [{"b": b} for b in ctx.sample(li.behaviours, 900 if ctx.quick else 20000) +
                            ctx.sample(more.behaviours, 300 if ctx.quick else 4000)], "sizes")
    rs = ctx.tlc("RarSet", constants=dict(MaxFiles=2, MaxUnits=3, Caps={1, 2, 3}, Namings={"old", "new", "num"}, RRs={"none", "old", "new"},
                 Ends={"none", "plain", "crc", "full", "p0w4"}, Comments={"none", "cmt", "old"}, Pads={True, False}, Stuffs={0},
                 Sources={"sfv"}, Sets={1}, MaxVols=6), constraint="Emit", invariants=["RoundTrip", "SrrHasNoData", "ListingOK"])
    cr = ctx.tlc("SrrCreate", constants=dict(Items=set(ITEMS), MissingItems={"miss"}, OutsideItems={"out"}, MaxStore=3, MaxSets=2),
                 constraint="Emit", invariants=["Ordered", "Complete", "NoEscape"])
    reqs = ctx.sample(cr.behaviours, 900 if ctx.quick else 8000)
    layouts = ctx.sample(rs.behaviours, 1 << 30)
    cases = [{"b": b, "layout": ctx.rng.choice(layouts), "seed": ctx.seed} for b in reqs]
    # first volumes called .001 are not accepted by the command line
    for c in [c for c in cases if c["layout"]["cfg"]["naming"] != "num" or all(s == "sfv" for s in c["b"]["req"]["src"])][:60 if ctx.quick else 600]:
        c["cli"] = 1
    ctx.replay(case_create, cases, "create")
    import itertools
    kinds = [list(k) for n in (1, 2, 3) for k in itertools.product(["store", "fast", "best"], repeat=n)]
    ctx.replay(case_compressed, [{"kinds": k} for k in kinds], "compressed")
    ctx.assumptions += ["volumes in one SRR have distinct lower-case names (with their folders)"]
