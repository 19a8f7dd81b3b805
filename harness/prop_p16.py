"""P16: merging SRRs.  Lists generated by spec/Merge.tla are merged by the real code, at once and in steps,
and compared byte for byte; merged SRRs of real RAR sets (spec/RarSet.tla) have to rebuild all of them."""
import json
import os
import random
from . import rarset, srrmodel as M, cli
from .core import Failure, check, same, stable_hash
from .prop_p01 import with_events
from .prop_p03 import A, S, V, O, data_of
from .prop_p06 import concrete, layouts
from .prop_p13 import tree_state, put
from .tlc import Set

POOL = [
    [A("first app 1.0"), V("r.rar", 0), V("r.r00", 1), O("m.mkv", 1)],
    [A(""), S("a.nfo", 3), S("sub/a.nfo", 4), V("CD1/q.rar", 2), V("CD1/q.r00", 3)],
    [A("music with a long enough name"), S("a.nfo", 1), S("t.sfv", 0)],
    [A("\u00e9-app"), S("x.jpg", 1), V("p1.rar", 4), S("late.txt", 2), V("p2.rar", 5), O("m.avi", 2), O("n.avi", 3)],
    [A("an application without files")],
    [A("x"), V("fix.part1.rar", 6), V("fix.part2.rar", 8)],
    [A("kept recovery records"), V("old.rar", 7), V("old.r00", 1)],
]
INVS = ["SameInSteps", "Grouped", "NothingLost", "OneHeader", "StoredFirst", "Whole", "Keeps"]


def show(data):
    try:
        return [(k, n, len(b)) for k, n, b, _ in M.split(data)]
    except (M.ParseError, ValueError) as e:
        return str(e)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def merge(rm, ins, out, app, rng):
    give = rng.choice([list, tuple, iter])(ins)
    if app:
        rm.merge_srrs(give, out, app)
    elif rng.random() < .5:
        rm.merge_srrs(give, out)
    else:
        rm.merge_srrs(give, out, rng.choice([None, ""]))


def script(d, argv):
    import importlib.util

    def fn():
        import sys
        spec = importlib.util.spec_from_file_location("srr_merge_script", os.path.join(os.environ.get("VERIF_REPO", "/repo"), "bin", "srr_merge.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)

        class O(object):
            output_name = argv[1]
        m.main(O, argv[0])
    return cli.run_child(fn, cwd=d)


def case_merge(case, d):
    import rescene.main as rm
    b = case["b"]
    rng = random.Random(stable_hash(case))
    ins = []
    for i, x in enumerate(b["list"]):
        p = os.path.join(d, "in", rng.choice(["", "s/", "\u00e9 x/"]) + "%s.srr" % ("s%d" % x if case["share"] else "i%d" % i))
        if p not in ins or not os.path.exists(p):
            put(p, M.srr_bytes(POOL[x - 1], data_of))
        ins.append(p)
    want = M.srr_bytes(b["want"], data_of)
    before = tree_state(os.path.join(d, "in"))
    out = os.path.join(d, "out.srr")
    if rng.random() < .3:
        put(out, b"something older and longer" * rng.choice([1, 20000]))
    merge(rm, ins, out, b["app"], rng)
    got = read(out)
    check(got == want, "merging %s (app %r): %s, specification %s", b["list"], b["app"], show(got), show(want))
    same(tree_state(os.path.join(d, "in")), before, "inputs of the merge")
    # what the listing says about it
    inf = rm.info(out)
    names = []
    for p in b["want"]:
        if p["k"] == "st" and p["n"] not in names:
            names.append(p["n"])
    same(list(inf["stored_files"]), names, "stored files listed")
    # in two groups
    if len(ins) > 2:
        c = rng.randrange(1, len(ins))
        x, y, z = (os.path.join(d, n) for n in ("x.srr", "y.srr", "z.srr"))
        merge(rm, ins[:c], x, b["app"], rng)
        merge(rm, ins[c:], y, b["app"], rng)
        merge(rm, [x, y], z, b["app"], rng)
        got = read(z)
        check(got == want, "merging %s in two groups of %d and %d: %s, specification %s", b["list"], c, len(ins) - c, show(got), show(want))
    if rng.random() < .3 and not b["app"]:
        so = os.path.join(d, "so.srr")
        r = script(d, (ins, so))
        check(r.code == 0 and os.path.exists(so), "srr_merge.py failed: %s", r)
        check(read(so) == want, "srr_merge.py: %s, specification %s", show(read(so)), show(want))
        r = script(d, (ins, None))
        so = ins[0][:-4] + "_joined.srr"
        check(r.code == 0 and os.path.exists(so), "srr_merge.py without -o failed: %s", r)
        check(read(so) == want, "srr_merge.py without -o: %s, specification %s", show(read(so)), show(want))
        os.unlink(so)
        same(tree_state(os.path.join(d, "in")), before, "inputs of srr_merge.py")
    # the result takes the place of one of the inputs
    if rng.random() < .3:
        dest = rng.choice(ins)
        merge(rm, ins, dest, b["app"], rng)
        got = read(dest)
        check(got == want, "merging %s into input %d: %s, specification %s", b["list"], ins.index(dest) + 1, show(got), show(want))
    return {"inputs": len(ins)}


def case_fail(case, d):
    """An input that is missing or not an SRR: an error, and all inputs stay as they are."""
    import rescene.main as rm
    rng = random.Random(stable_hash(case))
    ins = []
    for i in range(3):
        p = os.path.join(d, "in", "i%d.srr" % i)
        put(p, M.srr_bytes(rng.choice(POOL), data_of))
        ins.append(p)
    bad = case["bad"]
    if case["how"] == "missing":
        os.unlink(ins[bad])
    else:
        put(ins[bad], b"this is not an SRR file at all, but it is long enough" * 3)
    before = tree_state(os.path.join(d, "in"))
    try:
        rm.merge_srrs(ins, os.path.join(d, "out.srr"))
    except Exception:
        pass
    else:
        check(False, "merging with input %d %s succeeds", bad + 1, case["how"])
    same(tree_state(os.path.join(d, "in")), before, "inputs of the failed merge")
    return {}


def case_rebuild(case, d):
    import rescene.main as rm
    rng = random.Random(stable_hash(case))
    bs = case["layout"]
    sets = []
    for s, b in enumerate(bs, 1):
        c = concrete([b] if len(bs) == 1 else [b], "%s|%d" % (case["lseed"], s))[0]
        # names of their own: another set number in the same directory
        c = rarset.concretise(b, "%s|%d" % (case["lseed"], s), setnr=s, exts_by=[".mkv", ".avi", ".txt", ".mp4"], zeros=False)
        c.sub = "CD%d" % s if case["sub"] else ""
        sets.append(c)
    rel, src, out = (os.path.join(d, x) for x in ("rel", "src", "out"))
    os.makedirs(out)
    srrs, stored = [], []
    for s, c in enumerate(sets):
        rarset.write_set(c, os.path.join(rel, c.sub))
        sfv = os.path.join(rel, c.sub, c.base + ".sfv")
        put(sfv, rarset.sfv_text(c, rng))
        nfo = os.path.join(rel, "n%d.nfo" % s)
        put(nfo, b"nfo %d" % s * 50)
        srr = os.path.join(d, "s%d.srr" % s)
        rm.create_srr(srr, [sfv], rel, [nfo, sfv], True, False, rng.random() < .7)
        srrs.append(srr)
        stored += [("n%d.nfo" % s, read(nfo)), ((c.sub + "/" if c.sub else "") + c.base + ".sfv", read(sfv))]
        rarset.write_files(c, src)
    m = os.path.join(d, "m.srr")
    rm.merge_srrs(srrs, m)
    res, ev = with_events(lambda: rm.reconstruct(m, src, out, True))
    got = {k: v for k, v in rarset.read_tree(out).items() if not k.endswith("/")}
    want = {}
    for c in sets:
        for v in c.volumes:
            want[(c.sub + "/" if c.sub else "") + v.name] = v.data
    for n, b in stored:
        want[n] = b
    check(got == want, "rebuilding %d merged sets: %s", len(sets), rarset.diff_tree(want, got))
    same([(f.file_name) for f in rm.info(m)["rar_files"].values()], [(c.sub + "/" if c.sub else "") + v.name for c in sets for v in c.volumes],
         "volumes listed for the merged SRR")
    return {"volumes": len(want)}


PARTS = {"merge": case_merge, "fail": case_fail, "rebuild": case_rebuild}


def run(ctx):
    ctx.assumptions = ["the inputs have no two volumes with the same lower-case name", "SRR files of at least 20 bytes"]
    a = ctx.tlc("Merge", constants=dict(Pool=POOL, Apps={"", "the given name"}, MaxLen=3 if ctx.quick else 4), constraint="Emit", invariants=INVS)
    bs = ctx.sample(a.behaviours, 1200 if ctx.quick else 3200)
    ctx.replay(case_merge, [{"b": b, "share": i % 3 == 0, "n": i} for i, b in enumerate(bs)], "merge")
    ctx.replay(case_fail, [{"bad": x, "how": h, "n": n} for x in range(3) for h in ("missing", "junk") for n in range(3)], "fail")
    ls = layouts(ctx, 6 if ctx.quick else 60, 40 if ctx.quick else 500, max_files=2, maxvols=3)
    cases = []
    for bs_, seed, rec, _ in ls:
        for sub in (True, False):
            cases.append({"layout": bs_ + ([ctx.rng.choice(ls)[0][0]] if ctx.rng.random() < .3 else []), "lseed": seed, "sub": sub})
    ctx.replay(case_rebuild, cases, "rebuild", timeout=120)
