"""P05: files come out of an SRR inside the output folder only, and nothing is replaced without consent.
The runs generated by spec/Extract.tla are executed by an unprivileged process in a scratch folder with
files in all the places a hostile name could lead to."""
import json
import os
import random
import re
import zlib
from . import cli, rarfmt as R
from .core import Failure, answer, check, same, stable_hash
from .prop_p13 import put, tree_state
from .tlc import Set

NOBODY = 65534
INVS = ["Contained", "ConsentNeeded", "NeverMeansNever", "ReportTrue", "OnlySelected", "Complete", "NothingStray", "DirsStay"]
BAD = ["..", ".", ""]
ELEMS = ["Sample", "x.nfo", "a b.txt", "\u00e9\u4e2d.jpg", "..x", "...", "-y", "C:", "con", "a;b", "~", "$HOME", "*", "CD1", "grp.rar", "%s", "a'\"b",
         "x" * 200, "..nfo", "x..", "[z]", "null", "dev"]
OLDFILE = b"an older file"


def cfg(mode, paths, pol, sel=None):
    return {"mode": mode, "paths": paths, "pol": pol, "sel": sel or {"k": "all", "v": []}}


def configs():
    out = []
    for paths in (True, False):
        for pol in ("always", "never", "ask"):
            out += [cfg("x", paths, pol), cfg("r", paths, pol), cfg("re", paths, pol, {"k": "first", "v": ["a"]})]
        out += [cfg("lib", paths, "never"), cfg("lib", paths, "never", {"k": "base", "v": ["b"]}),
                cfg("lib", paths, "never", {"k": "path", "v": ["a", "b"]}), cfg("lib", paths, "never", {"k": "path", "v": ["..", "b"]})]
    return out


P = lambda *l: Set([{"p": list(p), "v": v} for p, v in l])
OLD, DIR = -1, -2
PRES = [P(), P((["a"], OLD)), P((["b"], OLD), (["a"], DIR)), P((["a"], DIR), (["a", "b"], OLD)), P((["a"], DIR), (["b"], DIR), (["b", "a"], OLD))]
NAMES = [["a"], ["b"], ["a", "b"], ["b", "a"], ["..", "b"], ["", "a"], ["a", "..", "b"], ["b", ""], ["."], ["a", "b", "b"]]


def consts(names, maxlen, cfgs=None, pres=PRES):
    return dict(Names=Set(names), Bad=set(BAD), Pres=Set(pres), Cfgs=Set(cfgs or configs()), MaxLen=maxlen)


def safe(n):
    return not any(e in BAD for e in n)


def selected(c, n):
    k, v = c["sel"]["k"], c["sel"]["v"]
    return {"all": True, "first": n[:1] == v, "base": n[-1:] == v, "path": n == v}[k]


def volume(i, rng):
    data = R.pattern("vol%d" % i, rng.choice([1, 300, 5000]))
    name = "payload%d.bin" % i
    h = R.file_header(name, len(data), len(data), zlib.crc32(data))
    main = R.main_header()
    end = R.end_block("plain", False, 0, b"")
    return R.MARKER + main + h + data + end, R.MARKER + main + h + end, name, data


def case_extract(case, d):
    b = case["b"]
    c = b["cfg"]
    rng = random.Random(stable_hash(case))
    names = rng.sample(ELEMS, 2)
    if names[0].lower() == names[1].lower():
        names[1] = "other"
    elem = {"a": names[0], "b": names[1], "..": "..", ".": ".", "": ""}
    base = os.path.join(d, "area", "deep")
    res = os.path.join(base, "out")
    extra = ["-d"] if c["mode"] in ("x", "re") and rng.random() < .2 else []
    top = os.path.join(res, "x") if extra else res
    for f in (d, os.path.join(d, "area"), base, os.path.join(d, "abs"), os.path.join(base, "out2")):
        for n in names:
            put(os.path.join(f, n), b"do not touch")
    src = os.path.join(d, "src")
    os.makedirs(src)

    def raw(n, vol=False):
        s = rng.choice(["/", "/", "\\"])
        t = s.join(elem[e] for e in n)
        if len(n) > 1 and n[0] == "" and safe(n[1:]):
            t = rng.choice([t, os.path.join(d, "abs", *[elem[e] for e in n[1:]]), "/dev/null"])
        return t
    # the SRR
    content, parts, rawn = {}, [R.srr_header(rng.choice(["app", ""]))], {}
    for i, e in enumerate(b["es"], 1):
        rawn[i] = raw(e["n"])
        if e["k"] == "st":
            content[i] = R.pattern("st%d" % i, rng.choice([0, 1, 400, 70000]))
            parts.append(R.srr_stored(rawn[i], content[i]))
        else:
            content[i], inside, pn, pd = volume(i, rng)
            parts.append(R.srr_rar(rawn[i]) + inside)
            put(os.path.join(src, pn), pd)
    if not any(e["k"] == "vol" for e in b["es"]):
        parts.append(R.srr_rar("zz unused.rar") + volume(9, rng)[1] if c["mode"] != "r" else b"")
    srr = os.path.join(d, "x.srr")
    put(srr, b"".join(parts))
    # the output folder
    fresh = not b["pre"] and rng.random() < .3
    if not fresh:
        os.makedirs(res)
    for x in sorted(b["pre"], key=lambda x: len(x["p"])):
        p = os.path.join(top, *[elem[e] for e in x["p"]])
        if x["v"] == DIR:
            os.makedirs(p, exist_ok=True)
        else:
            put(p, OLDFILE)
    cwd = base
    for t, ds, fs in os.walk(d):
        os.chmod(t, 0o777)
        for f in fs:
            os.chmod(os.path.join(t, f), 0o666)
    before = tree_state(d)
    spelled = rng.choice([res, res + "/", "out", "./out", "../deep/out", "out//", res + "/./"])
    asked = [r["ok"] for r in b["rep"] if r["asked"]]
    stdin = "".join(answer(rng, "y" if ok else "n") for ok in asked) \
        if c["pol"] == "ask" else ""
    pol = {"always": ["-y"], "never": ["-n"], "ask": []}[c["pol"]]
    if c["mode"] == "lib":
        import rescene.main as rm
        kw = {"base": {"packed_name": elem[c["sel"]["v"][0]] if c["sel"]["k"] == "base" else ""},
              "path": {"packed_name": "/".join(elem[e] for e in c["sel"]["v"]) if c["sel"]["k"] == "path" else ""}}.get(c["sel"]["k"], {})

        def fn():
            r = rm.extract_files(srr, spelled, c["paths"], **kw)
            print(json.dumps([[os.path.abspath(p), bool(ok)] for p, ok in r]))
        r = cli.run_child(fn, cwd=cwd, uid=NOBODY)
    else:
        argv = [srr, "-o", spelled] + pol + extra + (["-p"] if c["paths"] else [])
        if c["mode"] == "x":
            argv += ["-x"]
        elif c["mode"] == "re":
            argv += ["--extract-regex", rng.choice([str, str.upper])(re.escape(elem["a"])) + r"([/\\]|$)"]
        else:
            argv += ["-i", src]
        r = cli.srr(argv, stdin, cwd=cwd, uid=NOBODY)
    what = "%s%s%s, %s, names %s, before %s" % (c["mode"], " -p" if c["paths"] else "", " -d" if extra else "", c["pol"],
                                                [rawn[k] for k in sorted(rawn)], b["pre"])
    check(r.code != "hang", "%s: does not end", what)
    after = tree_state(d)
    ins = os.path.relpath(res, d)
    out = {k: v for k, v in after.items() if k != ins and not k.startswith(ins + "/")}
    want = {k: v for k, v in before.items() if k != ins and not k.startswith(ins + "/")}
    check(out == want, "%s: Contained: files outside the output folder changed: %s", what,
          sorted(k for k in set(out) | set(want) if out.get(k, 0) != want.get(k, 0)))
    # what the specification allows on disk
    def tree(h):
        t = {}
        for x in h:
            p = "/".join(elem[e] for e in x["p"])
            if x["v"] != DIR:
                t[p] = OLDFILE if x["v"] == OLD else content[x["v"]]
        return t
    got = {os.path.relpath(k, os.path.relpath(top, d)): v for k, v in after.items() if k.startswith(os.path.relpath(top, d) + "/") and v is not None}
    allowed = [tree(h) for h in b["hist"]]
    reports = [("/".join(elem[e] for e in x["t"]), x["ok"]) for x in b["rep"]]
    unsafe_seen = [i for i, e in enumerate(b["es"]) if not safe(e["n"]) and not selected(c, e["n"])]
    bad = r.code not in (0, 1) if c["mode"] != "lib" else r.code != 0
    if b["st"] == "abort":
        check(r.code != 0, "%s: exit status 0 although an entry cannot be written", what)
        check(got in allowed, "%s: after the error: %s, specification %s", what, brief(got), [brief(a) for a in allowed])
        return {"abort": 1}
    if bad and unsafe_seen:
        check(got in allowed[:unsafe_seen[0] + 2], "%s: after the error: %s, specification %s", what, brief(got), [brief(a) for a in allowed])
        return {"mayabort": 1}
    check(got == allowed[-1], "%s: in the output folder: %s, specification %s (%s)", what, brief(got), brief(allowed[-1]), r)
    check(not bad, "%s: ended with %s", what, r)
    if c["mode"] == "lib":
        same([(os.path.relpath(p, res), ok) for p, ok in json.loads(r.out.strip().splitlines()[-1])], reports, what + ": result")
    elif c["mode"] in ("x", "re"):
        same(r.code, 0 if all(ok for _, ok in reports) else 1, what + ": exit status")
        o = re.sub(r"Do you wish to continue\? \(Y/N\): ", "", r.out)
        same([l[:-len(": extracted.")] for l in o.split("\n") if l.endswith(": extracted.")], [n for n, ok in reports if ok], what + ": reported as extracted")
        same([l[:-len(": not extracted!")] for l in r.err.split("\n") if l.endswith(": not extracted!")], [n for n, ok in reports if not ok],
             what + ": reported as not extracted")
    return {b["st"]: 1, "reports": len(reports)}


def brief(t):
    return sorted((k, "old" if v == OLDFILE else len(v)) for k, v in t.items())


# hostile names of the packed files in a volume: the source is only read, the volume is all that is written
def case_packed(case, d):
    rng = random.Random(stable_hash(case))
    base = os.path.join(d, "area", "deep")
    res, src = os.path.join(base, "out"), os.path.join(base, "src")
    os.makedirs(res)
    os.makedirs(src)
    data = R.pattern("packed", 3000)
    for f in (d, os.path.join(d, "area"), base, src, os.path.join(d, "abs")):
        put(os.path.join(f, "p.bin"), data)
    name = [p.replace("@", d) for p in
            ["..\\p.bin", "..\\..\\p.bin", "@\\abs\\p.bin".replace("/", "\\"), "\\p.bin", "a\\..\\p.bin", ".\\p.bin", "..", "p.bin\\", "p.bin", "../p.bin",
             "@/abs/p.bin", ""]][case["n"]]
    h = R.file_header(name, len(data), len(data), zlib.crc32(data))
    main, end = R.main_header(), R.end_block("plain", False, 0, b"")
    srr = os.path.join(d, "x.srr")
    put(srr, R.srr_header("a") + R.srr_rar("v.rar") + R.MARKER + main + h + end)
    for t, ds, fs in os.walk(d):
        os.chmod(t, 0o777)
    before = tree_state(d)
    argv = [srr, "-i", src, "-o", res, "-y"] + (["-p"] if rng.random() < .5 else []) + (["-r"] if rng.random() < .3 else [])
    r = cli.srr(argv, cwd=base, uid=NOBODY)
    what = "packed file named %r" % name
    check(r.code != "hang", "%s: does not end", what)
    after = tree_state(d)
    v = after.pop("area/deep/out/v.rar", None)
    check(after == before, "%s: files changed: %s", what, sorted(k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0)))
    if name == "p.bin":
        same(v, R.MARKER + main + h + data + end, what + ": volume")
    return {"ok" if r.code == 0 else "error": 1}


PARTS = {"extract": case_extract, "packed": case_packed}


def run(ctx):
    ctx.assumptions = ["POSIX path rules; the output folder has no symbolic links in it", "the SRR itself is well-formed"]
    a = ctx.tlc("Extract", constants=consts(NAMES, 2), constraint="Emit", invariants=INVS)
    import itertools
    alpha = ["a", "b", "..", ".", ""]
    deep = [list(x) for n in (1, 2, 3, 4)[:3 if ctx.quick else 4] for x in itertools.product(alpha, repeat=n) if list(x) != [""]]
    one = [x for x in configs() if x["sel"]["k"] == "all"]
    s = ctx.tlc("Extract", constants=consts(deep, 1, one, PRES[:1] + PRES[3:4]), constraint="Emit", invariants=INVS)
    bs = ctx.sample(a.behaviours, 2500 if ctx.quick else 20000) + ctx.sample(s.behaviours, 1500 if ctx.quick else 10000)
    if not ctx.quick:
        t = ctx.tlc("Extract", constants=consts(NAMES[:7], 3), constraint="Emit", invariants=INVS)
        bs += ctx.sample(t.behaviours, 20000)
    ctx.replay(case_extract, [{"b": b, "n": i} for i, b in enumerate(bs)], "extract")
    ctx.replay(case_packed, [{"n": n, "r": r} for n in range(12) for r in range(3)], "packed")
