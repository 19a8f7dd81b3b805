"""P22: a music release gets its original tracks back from retagged ones and its SRR (spec/Retag.tla, bin/retag.py)."""
import os
import random
from . import cli, media, rarfmt as R, rarset
from .core import answer, check, same, stable_hash
from .prop_p13 import flac_audio, fpcalc_dir, mp3_audio, put, tree_state, video
from .prop_p20 import tool

INVS = ["NoSrsLeft", "RightTracksFixed", "AskedFirst", "FailureHarmless"]
_made = {}


def flac(tags, audio):
    return b"fLaC" + media.flac_block(0, b"\x10\0\x10\0" + bytes(30), False) + media.flac_block(4, tags, True) + audio


def track(kind, salt, name, d):
    """-> (original, retagged, other audio, SRS of the original)"""
    key = (kind, salt, name)
    if key in _made:
        return _made[key]
    rng = random.Random("trk%s%d" % (kind, salt))
    if kind == "video":
        orig = again = other = video("mkv", rng)[0]
    elif kind == "mp3":
        a, b = mp3_audio(rng), mp3_audio(rng)
        post = rng.choice([media.id3v1(b"t"), media.lyrics3v2(b"words") + media.id3v1(b"x"), b""])
        orig = rng.choice([b"", media.id3v2(b"x" * rng.choice([10, 300]))]) + a + post
        again = rng.choice([b"", media.id3v2(b"other tags" * 40)]) + a + rng.choice([b"", media.id3v1(b"new")])
        other = media.id3v2(b"x" * 30) + b
    else:
        a, b = flac_audio(rng), flac_audio(rng)
        orig, again, other = flac(b"vc" * 20, a), flac(b"changed " * rng.choice([1, 100]), a), flac(b"vc" * 20, b)
    t = os.path.join(d, "mk")
    put(os.path.join(t, name), orig)
    r = cli.srs([os.path.join(t, name), "-o", os.path.join(t, "x.srs")], cwd=d, env={"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"})
    check(r.code == 0, "creating the SRS of %s failed: %s", name, r)
    with open(os.path.join(t, "x.srs"), "rb") as f:
        srs = f.read()
    import shutil
    shutil.rmtree(t)
    _made[key] = orig, again, other, srs
    return _made[key]


def case_retag(case, d):
    b = case["b"]
    rng = random.Random(stable_hash(case))
    cfg = b["cfg"]
    src = os.path.join(d, "in")
    out = src if cfg["inplace"] else os.path.join(d, "out")
    os.makedirs(src)
    if rng.random() < .7:
        os.makedirs(out, exist_ok=True)
    # two folders can hold tracks of the same name; also with the same data
    twin = rng.random() < .4
    stored, plan = [], []
    keep = {}
    for j, it in enumerate(b["items"], 1):
        folder = {"": "", "d1": "CD1", "d2": "Cd 2/Extra"}[it["d"]]
        n = 1 if twin and [x["d"] for x in b["items"]].count(it["d"]) == 1 and not any(x["place"] == "root" for x in b["items"]) else j
        if it["k"] == "file":
            name = "/".join(x for x in [folder, ["notes-%d.nfo", "Cover %d.JPG", "a-%d.sfv", "%d.m3u", "x%d.SRS"][j % 5] % j] if x)
            data = R.pattern("p22f%d" % j, rng.choice([0, 1, 400]))
            stored.append((name, data))
            plan.append((it, name, None, data))
            if it["old"] == "dest":
                put(os.path.join(out, name), b"older")
            continue
        kind = "video" if it["k"] == "video" else ["mp3", "flac"][(j + case["flip"]) % 2]
        base = ["%02d-Artist-title", "%02d - t\u00efte", "%02d_x.y"][case["flip"]] % n
        fn = base + {"video": ".mkv", "mp3": ".mp3", "flac": ".flac"}[kind]
        orig, again, other, srs = track(kind, j % 3, fn, d)
        name = "/".join(x for x in [folder, fn] if x)
        stored.append(("/".join(x for x in [folder, base + ".srs"] if x), srs))
        plan.append((it, name, stored[-1][0], orig))
        data = {"wrong": other}.get(it["place"], rng.choice([again, again, orig]))
        where = {"exact": name, "wrong": name, "root": fn, "casefile": "/".join(x for x in [folder, fn.swapcase()] if x),
                 "casedir": "/".join([folder.swapcase(), fn])}.get(it["place"])
        if where and folder and any(x["place"] == "casedir" and x["d"] == it["d"] for x in b["items"]) and it["place"] != "root":
            where = folder.swapcase() + where[len(folder):]      # one folder, in one case
        if where:
            put(os.path.join(src, where), data)
            keep[where] = data
        if it["old"] == "dest" and not cfg["inplace"]:
            put(os.path.join(out, name), b"older")
        if it["old"] == "srs":
            put(os.path.join(out, stored[-1][0]), b"older")
    put(os.path.join(src, "unrelated.mp3"), b"x")
    srr = os.path.join(d, rng.choice(["rel.srr", "A release-GRP.srr"]))
    order = list(stored)
    if len({os.path.basename(n) for n, _ in stored}) != len(stored):
        rng.shuffle(order)
    with open(srr, "wb") as f:
        f.write(R.srr_header("x") + b"".join(R.srr_stored(n, x) for n, x in order))
    with open(srr, "rb") as f:
        srrb = f.read()
    before_in, before_out = tree_state(src), tree_state(out) if os.path.isdir(out) else {}
    argv = [srr, "-i", src, "-o", out] + {"yes": ["-y"], "no": ["-n"], "ask": []}[cfg["mode"]]
    r = tool(argv, d, {"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}, "".join(answer(rng, cfg["answer"]) for _ in range(60)).encode(), script="retag")
    check(r.code not in ("hang", 96), "retag fails: %s", r)
    got = tree_state(out)
    want = dict(before_out)
    for (it, name, srsname, data), o, lg in zip(plan, b["out"], b["log"]):
        if o["dest"] == "new":
            want[name] = data
        if srsname:
            if o["srs"] == "none":
                want.pop(srsname, None)
            what = "%s (%s, at %s): spec says %s" % (name, it["k"], it["place"], lg)
        else:
            what = name
        check(got.get(name) == want.get(name), "%s; in the output folder it is %s", what, "missing" if name not in got else
              "the original" if got[name] == data else "unchanged" if got[name] == before_out.get(name) else "something else")
        if srsname:
            check(got.get(srsname) == want.get(srsname), "%s; SRS %s", what, "left behind" if srsname in got else "gone")
    same(sorted(x for x in got if not x.endswith("/")), sorted(x for x in want if not x.endswith("/")), "files in the output folder")
    if not cfg["inplace"]:
        same(tree_state(src), before_in, "input folder")
    with open(srr, "rb") as f:
        check(f.read() == srrb, "the SRR changed")
    if not b["aborted"]:
        same(r.code == 0, b["failures"] == 0, "exit status %r says success" % r.code)
    return {x: 1 for x in b["log"]}


PARTS = {"retag": case_retag}


def run(ctx):
    q = ctx.quick
    base = dict(Dirs={"", "d1"}, Modes={"yes", "no", "ask"}, Places={"exact", "casefile", "casedir", "root", "none", "wrong"}, Olds={"none", "dest", "srs"})
    a = ctx.tlc("Retag", constants=dict(base, MaxItems=1), constraint="Emit", invariants=INVS)
    b = ctx.tlc("Retag", constants=dict(base, MaxItems=2), constraint="Emit", invariants=INVS)
    c = ctx.tlc("Retag", constants=dict(base, Dirs={"", "d1", "d2"}, MaxItems=5), constraint="Emit", invariants=INVS, simulate=40 if q else 600, depth=25)
    beh = a.behaviours if not q else ctx.sample(a.behaviours, 160)
    beh = beh + ctx.sample(b.behaviours, 200 if q else 5000) + ctx.sample(c.behaviours, 200 if q else 3000)
    ctx.replay(case_retag, [{"b": x, "flip": ctx.rng.randrange(2)} for x in beh], "retag", timeout=120)
    ctx.assumptions += ["the SRS of a track is stored next to where the track was, as pyrescene does; its name ends with .srs",
                        "a track that is not in its own folder may lie in the root of the input folder"]
