"""P01: store-mode RAR volumes are rebuilt byte for byte (spec/RarSet.tla)."""
import os
import random
import zlib
from . import rarfmt as R, rarset, cli
from .core import Failure, check, same, stable_hash
from .tlc import TLCError

INVS = ["NeverWrong", "RoundTrip", "SrrHasNoData", "LayoutOK", "ListingOK"]


class Events(object):
    def __init__(self):
        self.events = []

    def __call__(self, e):
        self.events.append(e)


def with_events(fn, events=None):
    """Run fn with a subscribed listener -> (result, [events])."""
    import rescene.main as rm
    ev = Events()
    if events is not None:
        ev.events = events
    rm.subscribe(ev)
    try:
        return fn(), ev.events
    finally:
        rm.callbacks.remove(ev)


def make_sets(case, d, base=None):
    beh, seed = case["b"], case["seed"]
    rel = os.path.join(d, "rel")
    sets = []
    nsets = beh["cfg"]["sets"]
    for s in range(1, nsets + 1):
        c = rarset.concretise(beh, seed, setnr=s, base=base, alike=True)
        sub = "" if nsets == 1 else ("CD%d" % s)
        c.sub = sub
        c.dir = os.path.join(rel, sub)
        rarset.write_set(c, c.dir)
        c.sfv = os.path.join(c.dir, c.base + ".sfv")
        with open(c.sfv, "wb") as f:
            f.write(rarset.sfv_text(c, c.rng))
        rarset.write_files(c, os.path.join(d, "files"))
        sets.append(c)
    return rel, sets


def infiles_for(src, sets):
    out = []
    for i, c in enumerate(sets):
        use_sfv = src == "sfv" or (src == "both" and i == 0)
        if use_sfv:
            out.append(c.sfv)
        else:
            out.append(os.path.join(c.dir, c.volumes[0].name))
    return out


def expected_volumes(sets, paths):
    out = {}
    for c in sets:
        for v in c.volumes:
            out[os.path.join(c.sub, v.name) if paths else v.name] = v.data
    return out


def case_roundtrip(case, d):
    import rescene.main as rm
    beh = case["b"]
    rng = random.Random(stable_hash([case, "opts"]))
    save_paths = rng.random() < .5
    rel, sets = make_sets(case, d, "same.name" if save_paths and rng.random() < .5 else None)     # CD1/same.name.rar, CD2/same.name.rar
    infiles = infiles_for(beh["cfg"]["src"], sets)
    srr = os.path.join(d, "out.srr")
    before = rarset.read_tree(rel)
    via_cli = case.get("cli")
    oso = rng.random() < .5
    if via_cli:
        args = [os.path.relpath(f, rel) for f in infiles] + ["-o", srr, "-y"] + (["-p"] if save_paths else []) \
            + ([] if oso else ["--no-isdb"])
        r = cli.srr(args, cwd=rel)
        check(r.code == 0, "creating the SRR failed: %r", r)
    else:
        ok = rm.create_srr(srr, infiles, rel, None, save_paths, False, oso)
        check(ok is True, "create_srr returned %r", ok)
    check(rarset.read_tree(rel) == before, "creating the SRR changed the release")
    total = sum(len(v.data) for c in sets for v in c.volumes)
    files = os.path.join(d, "files")
    fbefore = rarset.read_tree(files) if os.path.isdir(files) else {}
    os.makedirs(files, exist_ok=True)
    out = os.path.join(d, "out")
    os.mkdir(out)
    if via_cli:
        r = cli.srr([srr, "-i", files, "-o", out, "-y"] + (["-p"] if save_paths else []), cwd=d)
        check(r.code == 0, "reconstruction failed: %r", r)
        check("CRC mismatch" not in r.err + r.out, "CRC mismatch reported for correct data: %r", r)
    else:
        skip_crc = rng.random() < .2
        res, ev = with_events(lambda: rm.reconstruct(srr, files, out, save_paths, {}, skip_crc))
        check(res not in (-1, False), "reconstruct returned %r", res)
        crc = [e for e in ev if e.code == rm.MsgCode.CRC]
        check(not crc, "CRC mismatch reported for correct data: %s", [e.message for e in crc])
    want = expected_volumes(sets, save_paths)
    got = {k: v for k, v in rarset.read_tree(out).items() if not k.endswith("/")}
    for c in sets:
        if beh["cfg"]["src"] == "sfv" or (beh["cfg"]["src"] == "both" and c is sets[0]):
            key = os.path.join(c.sub, c.base + ".sfv") if save_paths else c.base + ".sfv"
            want[key] = open(c.sfv, "rb").read()
    dd = rarset.diff_tree(want, got)
    check(not dd, "rebuilt volumes differ: %s", dd)
    check(rarset.read_tree(files) == fbefore, "rebuilding changed the source files")
    return {"volumes": len(want), "bytes": total}


def old_volume(i, v, rng):
    """A volume with one file: (name, bytes of the volume, bytes in an SRR of the first generation, file name, data)"""
    fn, data = "file%d.avi" % i, R.pattern("old%d" % rng.getrandbits(30), rng.choice([1, 300, 512, 1700]))
    head = R.MARKER + R.main_header(True, True, i == 1, v["rr"] != "none" and rng.random() < .8)
    fh = R.file_header(fn, len(data), len(data), zlib.crc32(data), False, False)
    vol, kept = head + fh + data, head + fh
    if v["rr"] != "none":
        make = R.rr_new if v["rr"] == "new" else R.rr_old
        h, payload = make(vol, rng.choice([1, 2, 5]))
        if v["kept"] and rng.random() < .5:       # not the record that would be computed: only right when it is kept
            h, payload = make(R.pattern("x%d" % rng.getrandbits(30), len(vol) + rng.choice([0, 600])), rng.choice([1, 3]))
        vol += h + payload
        kept += h + (payload if v["kept"] else b"")
    e = R.end_block(rng.choice(["plain", "crc", "full"]), False, 0, vol)
    return "v%d.%s" % (i, rng.choice(["rar", "part01.rar"])), vol + e, kept + e, fn, data


def case_oldsrr(case, d):
    """SRRs that keep the recovery records of some volumes, copied by edits and merges, then rebuilt and listed."""
    import rescene.main as rm
    b = case["b"]
    rng = random.Random(stable_hash(case))
    made = [old_volume(i, v, rng) for i, v in enumerate(b["vols"], 1)]
    src, out = os.path.join(d, "src"), os.path.join(d, "out")
    os.makedirs(src)
    os.makedirs(out)
    for _, _, _, fn, data in made:
        with open(os.path.join(src, fn), "wb") as f:
            f.write(data)
    header = R.srr_header("an application")
    stored = [("a.nfo", b"first" * 40), ("b.nfo", b"")]
    rest = b"".join(R.srr_rar(m[0], not v["kept"]) + m[2] for v, m in zip(b["vols"], made))
    srr = os.path.join(d, "x.srr")

    def whole():
        return header + b"".join(R.srr_stored(n, x) for n, x in stored) + rest
    with open(srr, "wb") as f:
        f.write(whole())
    ops = []
    for k in range(b["copies"]):
        op = rng.choice(["add", "remove", "rename", "merge"])
        ops.append(op)
        if op == "remove" and stored:
            n = stored.pop(rng.randrange(len(stored)))[0]
            rm.remove_stored_files(srr, [n])
        elif op == "rename" and stored:
            j = rng.randrange(len(stored))
            new = "renamed%d.txt" % k
            rm.rename_stored_file(srr, stored[j][0], new)
            stored[j] = (new, stored[j][1])
        elif op == "merge":
            other = os.path.join(d, "other%d.srr" % k)
            extra = old_volume(90 + k, {"rr": "old", "kept": False}, rng)
            with open(other, "wb") as f:
                f.write(R.srr_header("other") + R.srr_rar(extra[0]) + extra[2])
            with open(os.path.join(src, extra[3]), "wb") as f:
                f.write(extra[4])
            first = rng.random() < .5
            rm.merge_srrs([other, srr] if first else [srr, other], os.path.join(d, "merged.srr"), "an application")
            os.replace(os.path.join(d, "merged.srr"), srr)
            blk = R.srr_rar(extra[0]) + extra[2]
            rest = blk + rest if first else rest + blk
            made.append(extra)
        else:
            with open(os.path.join(d, "n%d.txt" % k), "wb") as f:
                f.write(b"new" * k)
            rm.add_stored_files(srr, [os.path.join(d, "n%d.txt" % k)], d)
            stored.append(("n%d.txt" % k, b"new" * k))
        with open(srr, "rb") as f:
            got = f.read()
        check(got == whole(), "%s after %s: SRR of %d bytes, specification %d", b["vols"], ops, len(got), len(whole()))
    inf = rm.info(srr)
    same(sorted((f.file_name, f.file_size) for f in inf["rar_files"].values()), sorted((m[0], len(m[1])) for m in made), "%s: volumes listed" % b["vols"])
    same(sorted(inf["stored_files"]), sorted(n for n, _ in stored), "stored files listed")
    if case.get("cli"):
        r = cli.srr([srr, "-i", src, "-o", out, "-y"], cwd=d)
        check(r.code == 0, "%s after %s: reconstruction failed: %r", b["vols"], ops, r)
    else:
        res, ev = with_events(lambda: rm.reconstruct(srr, src, out, True, {}, rng.random() < .2))
        check(res not in (-1, False), "%s: reconstruct returned %r", b["vols"], res)
        check(not [e for e in ev if e.code == rm.MsgCode.CRC], "CRC mismatch reported for correct data")
    want = {m[0]: m[1] for m in made}
    want.update(stored)
    got = {k: v for k, v in rarset.read_tree(out).items() if not k.endswith("/")}
    dd = rarset.diff_tree(want, got)
    check(not dd, "%s after %s: rebuilt volumes differ: %s", b["vols"], ops, dd)
    return {"volumes": len(made)}


PARTS = {"roundtrip": case_roundtrip, "cli": case_roundtrip, "oldsrr": case_oldsrr}


def run(ctx):
    n = 2400 if ctx.quick else 24000
    base = dict(MaxFiles=2, MaxUnits=3, Caps={1, 2, 3}, Namings={"old", "new", "num"}, RRs={"none", "old", "new"},
                Ends={"none", "plain", "crc", "full", "p0w4"}, Comments={"none", "cmt", "old"}, Pads={True, False}, Stuffs={0},
                Sources={"sfv", "rar"}, Sets={1}, MaxVols=6)
    a = ctx.tlc("RarSet", constants=base, constraint="Emit", invariants=INVS)
    # more volumes and more files per set, fewer decorations
    b = ctx.tlc("RarSet", constants=dict(base, MaxFiles=3, MaxUnits=4 if ctx.quick else 5, Caps={1, 2, 4}, Namings={"old", "new"},
                                         RRs={"none", "new"}, Ends={"plain"}, Comments={"none"}, Pads={False},
                                         MaxVols=12), constraint="Emit", invariants=INVS)
    # two sets in one SRR
    c = ctx.tlc("RarSet", constants=dict(base, MaxUnits=2, Caps={1, 2}, Sets={2}, Sources={"sfv", "rar", "both"},
                                         Ends={"none", "crc"}, Comments={"none"}), constraint="Emit", invariants=INVS)
    # file records with zeros behind the data of the file
    z = ctx.tlc("RarSet", constants=dict(base, Stuffs={1}, Namings={"old", "new"}, RRs={"none", "new"}, Ends={"plain", "full"}, Comments={"none"},
                                         Pads={False}), constraint="Emit", invariants=INVS)
    # long volume chains: .r99 -> .s00, part099 -> part100
    l = ctx.tlc("RarSet", constants=dict(base, MaxFiles=1, MaxUnits=105 if ctx.quick else 205, Caps={1},
                                         Namings={"old", "new", "num"}, RRs={"none"}, Ends={"crc"}, Comments={"none"},
                                         Pads={False}, MaxVols=210, Sources={"sfv", "rar"}), constraint="Emit", invariants=["RoundTrip"])
    longs = [x for x in l.behaviours if len(x["vols"]) >= 99]
    longs = ctx.sample(longs, 24 if ctx.quick else 120)
    cases = []
    for r, k in ((a, n // 2), (b, n // 4), (c, n // 4), (z, n // 8)):
        for beh in ctx.sample(r.behaviours, k):
            cases.append({"b": beh, "seed": ctx.seed})
    for beh in longs:
        cases.append({"b": beh, "seed": ctx.seed})
    ctx.replay(case_roundtrip, cases, "roundtrip")
    # the command line accepts .sfv and .rar input only
    clis = [x for x in c.behaviours + a.behaviours if x["cfg"]["src"] == "sfv" or x["cfg"]["naming"] != "num"]
    clis = ctx.sample(clis, 80 if ctx.quick else 800)
    ctx.replay(case_roundtrip, [{"b": x, "seed": ctx.seed, "cli": 1} for x in clis], "cli")
    # SRRs of the first generation, with the recovery records of (some of) the volumes in them
    o = ctx.tlc("OldSrr", constants=dict(MaxVols=3, MaxCopies=2, Faulty="none"), constraint="Emit", invariants=["NeverMisread", "CopiesAreEqual", "RoundTrip"])
    for x, inv in (("sticky", "NeverMisread"), ("lost", "CopiesAreEqual"), ("lost", "RoundTrip")):
        if ctx.tlc("OldSrr", constants=dict(MaxVols=2, MaxCopies=1, Faulty=x), invariants=[inv], expect_fail=True).accepted:
            raise TLCError("OldSrr no longer refutes " + x)
    olds = ctx.sample(o.behaviours, 300 if ctx.quick else 1500)
    ctx.replay(case_oldsrr, [dict({"b": x, "seed": ctx.seed}, **({"cli": 1} if i % 8 == 0 else {})) for i, x in enumerate(olds)], "oldsrr")
    ctx.assumptions += ["unit sizes of the model are concretised to 1 byte .. 128 KiB runs; archives over 700 KB are not built",
                        "volume writer of the harness was validated against unrar"]
