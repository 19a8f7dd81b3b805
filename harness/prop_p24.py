"""P24: histories of a release and its SRR generated by spec/Life.tla are carried out with the real tools; after every
operation the release directory, the SRR and the unpacked files are compared with the model."""
import os
import random
from . import cli, media, rarfmt as R, srrmodel as M
from .core import check, same, stable_hash
from .prop_p01 import with_events
from .prop_p13 import fpcalc_dir, put, tree_state
from .prop_p20 import sfv, tool, volnames, volumes, cli_rm
from .prop_p12 import any_srs, music
from .tlc import Set

INVS = ["Sources", "Complete", "AllVolumes", "Again", "SameContent"]
REL = "Some.Movie.2001.DVDRip.XviD-GRP"


def read(p):
    with open(p, "rb") as f:
        return f.read()


class Life(object):
    def __init__(self, case, d):
        b = case["b"]
        self.d, self.cfg = d, b["cfg"]
        self.rng = rng = random.Random(stable_hash([case["seed"], "life"]))
        n, smp = self.cfg["n"], self.cfg["smp"]
        self.rel = os.path.join(d, "in", REL)
        self.src = os.path.join(d, "src")
        self.srr = os.path.join(d, "out", REL + ".srr")
        os.makedirs(os.path.dirname(self.srr))
        os.makedirs(self.src)
        self.name, self.files, self.inner, self.parts, self.first = {}, {}, {}, [], {}
        self.vols = {}
        same_name = n == 2 and rng.random() < .5
        self.env = {"PATH": fpcalc_dir(d) + ":/usr/bin:/bin"}
        self.inner = {}
        if self.cfg["music"]:
            lines = []
            for k in range(1, n + 1):
                kind = rng.choice(["mp3", "flac"])
                t = "%02d-track-grp.%s" % (k, kind)
                _, x, other = music(kind, rng)
                self.put("s%d" % k, t, x)
                self.name["s%d.srs" % k] = t.rsplit(".", 1)[0] + ".srs"
                self.inner[k] = ("../tagged/" + t, [])
                put(os.path.join(d, "tagged", t), other)
                lines.append((t, x))
            rng.shuffle(lines)
            self.put("sfv1", rng.choice(["00-", "000-", "00_"]) + "some.movie-2001-grp.sfv", sfv(lines, rng))
        for k in range(1, 1 if self.cfg["music"] else n + 1):
            kind = rng.choice(["avi", "mkv", "mp4", "wmv", "stream"])
            ext = media.EXT[kind]
            main = media.rb(rng, rng.choice([1, 700, 5000]))
            if k in smp:
                sample, main = self.video(kind)
                base = "some.movie%d.sample" % k
                self.put("s%d" % k, "Sample/%s%s" % (base, ext), sample)
                self.name["s%d.srs" % k] = "Sample/%s.srs" % base
            movie = rng.choice(["", "", "dir%d/" % k]) + "movie%d%s" % (k, ext)
            inner = [(movie, main)]
            if rng.random() < .4:
                at = rng.choice([0, 1])                # the movie begins in the first volume
                inner.insert(at, ("more%d.txt" % k, media.rb(rng, rng.choice([1, 20, 3000] if at else [1, 20]))))
            self.inner[k] = (movie, inner)
            base = "some.movie-grp" + ("" if n == 1 or same_name else ".cd%d" % k)
            naming = rng.choice(["old", "new"])
            cnt = rng.choice([1, 2, 3, 4])
            vols = volumes(base, volnames(base, cnt, rng, naming), rng, cnt, [(f.replace("/", "\\"), x) for f, x in inner], naming)
            pre = "" if n == 1 else "CD%d/" % k
            self.vols[k] = {pre + x[0]: x[1] for x in vols}
            self.parts += [R.srr_rar(pre + x[0]) + x[2] for x in vols]
            self.first[k] = pre + vols[0][0]
            self.put("sfv%d" % k, pre + base + ".sfv", sfv([(x[0], x[1]) for x in vols], rng))
        self.put("nfo", "some.movie-grp.nfo", media.rb(rng, rng.choice([1, 30, 3000])))
        if self.cfg["proof"]:
            self.put("proof", rng.choice(["Proof/some.movie-proof.jpg", "some.movie.proof.jpg"]), media.rb(rng, 3000))
        self.name["extra"], self.files["extra"] = "extra.txt", media.rb(rng, rng.choice([0, 1, 500]))
        self.name["other"], self.files["other"] = "other.nfo", b"other"
        for i in list(self.name):
            if i not in ("extra", "other"):
                h, t = os.path.split(self.name[i])
                self.name[i + ".new"] = rng.choice([os.path.join(h, "new-" + t), "new-%s-" % i + t, "New/%s-" % i + t, "New/deeper/%s-" % i + t])
        for i in self.files:
            if i in ("extra", "other"):
                continue
            put(os.path.join(self.rel, self.name[i]), self.files[i])
        for v in self.vols.values():
            for nm, x in v.items():
                put(os.path.join(self.rel, nm), x)
        self.argv = ["-y", "-o", os.path.dirname(self.srr)] + rng.choice([[], ["-s"], ["--best"], ["--no-isdb"]])
        self.scans, self.srs, self.mid = [], {}, b""

    def put(self, i, name, data):
        self.name[i], self.files[i] = name, data

    def video(self, kind):
        w = os.path.join(self.d, "w%d" % self.rng.getrandbits(40))
        os.makedirs(os.path.join(w, "o"))
        _, _, main, sample = any_srs(kind, os.path.join(w, "i"), os.path.join(w, "o"), self.rng, self.d)
        m = read(main)
        cli_rm(w)
        return sample, m

    def data(self, i):
        i = i[:-4] if i.endswith(".new") else i
        return self.srs[i] if i.endswith(".srs") else self.files[i]

    def want(self, names):
        out = {}
        for i in names:
            if i[0] == "v":
                out.update(self.vols[int(i[1:])])
            else:
                out[self.name[i]] = self.data(i)
        return out

    def tree(self):
        return {k: v for k, v in tree_state(self.rel).items() if not k.endswith("/") and isinstance(v, bytes)}

    # -- the operations ------------------------------------------------------------------------------
    def scan(self, arg):
        r = tool([self.rel] + self.argv, cwd=self.d, env=self.env, order=self.rng.getrandbits(32))
        check(r.code == 0, "the scan fails: %s", r)
        check(os.path.isfile(self.srr), "no SRR: %s", r)
        self.scans.append(read(self.srr))
        check(self.scans[-1] == self.scans[0], "the SRR of the recreated release is not the first SRR")
        if len(self.scans) == 1:
            parts = M.split(self.scans[0])
            for k in self.cfg["smp"]:
                x = [p[3] for p in parts if p[0] == "st" and p[1] == self.name["s%d.srs" % k]]
                check(len(x) == 1, "no SRS of sample %d: %s", k, [p[:2] for p in parts])
                self.srs["s%d.srs" % k] = x[0]
                check(len(x[0]) < len(self.files["s%d" % k]) + 2000, "the SRS is as large as the sample")

    def unpack(self, arg):
        k = int(arg[1:])
        if self.rng.random() < .5:
            for n, x in self.inner[k][1]:
                put(os.path.join(self.src, n), x)
            return
        from rescene.rarstream import RarStream            # by our own code
        for n, x in self.inner[k][1]:
            rs = RarStream(os.path.join(self.rel, self.first[k]), n.replace("/", "\\"))
            put(os.path.join(self.src, n), rs.read())
            rs.close()

    def forget(self, arg):
        for n, _ in self.inner[int(arg[1:])][1]:
            os.unlink(os.path.join(self.src, n))

    def lose(self, arg, gone):
        for n in gone:
            os.unlink(os.path.join(self.rel, n))
        if self.rng.random() < .4:
            for root, dirs, fs in os.walk(self.rel, topdown=False):
                if not dirs and not fs and root != self.rel:
                    os.rmdir(root)

    def restore(self, arg):
        import rescene
        if self.rng.random() < .6:
            r = cli.srr([self.srr, "-x", "-p", "-y", "-o", self.rel], cwd=self.d)
            check(r.code == 0, "extracting fails: %s", r)
        else:
            with_events(lambda: rescene.extract_files(self.srr, self.rel))

    def rebuild(self, arg):
        r = cli.srr([self.srr, "-i", self.src, "-o", self.rel, "-y", "-p"] + self.rng.choice([[], ["-r"], ["-u"]]), cwd=self.d)
        check(r.code == 0, "rebuilding fails: %s", r)
        check("CRC mismatch" not in r.err + r.out, "CRC mismatch for the right files: %s", r)

    def sample(self, arg, un):
        k = int(arg[1])
        have = [os.path.join(self.src, self.inner[k][0])] if k in un or self.cfg["music"] else []
        if k in self.first and os.path.isfile(os.path.join(self.rel, self.first[k])):             # still packed
            have.append(os.path.join(self.rel, self.first[k]))
        out = os.path.dirname(os.path.join(self.rel, self.name["s%d" % k]))
        os.makedirs(out, exist_ok=True)
        r = cli.srs([os.path.join(self.rel, self.name[arg]), self.rng.choice(have), "-y", "-o", out], cwd=self.d, env=self.env)
        check(r.code == 0, "rebuilding the sample fails: %s", r)

    def verify(self, arg):
        r = cli.srr([self.srr, "-q", "-i", self.src], cwd=self.d)
        check((r.code == 0) == (arg == "good"), "verifying the unpacked files: %s expected, %s", arg, r)

    def add(self, arg):
        import rescene
        p = os.path.join(self.d, "add", self.name["extra"])
        put(p, self.files["extra"])
        if self.rng.random() < .5:
            r = cli.srr([self.srr, "-s", p], cwd=self.d)
            check(r.code == 0, "adding fails: %s", r)
        else:
            with_events(lambda: rescene.add_stored_files(self.srr, [p], os.path.dirname(p)))

    def remove(self, arg):
        import rescene
        with_events(lambda: rescene.remove_stored_files(self.srr, [self.name[arg]]))

    def rename(self, arg):
        import rescene
        with_events(lambda: rescene.rename_stored_file(self.srr, self.name[arg], self.name[arg + ".new"]))

    def merge(self, arg):
        import rescene.main as rm
        o = os.path.join(self.d, "other.srr")
        put(o, R.srr_header("other app") + R.srr_stored(self.name["other"], self.files["other"]))
        res = os.path.join(self.d, "merged.srr")
        pair = [self.srr, o]
        self.rng.shuffle(pair)
        rm.merge_srrs(pair, res, "merged")
        os.replace(res, self.srr)

    def tidy(self, arg, gone):
        for n in gone:
            os.unlink(os.path.join(self.rel, n))


def case_life(case, d):
    w = Life(case, d)
    before = w.tree()
    src = {}
    for nr, st in enumerate(case["b"]["tr"]):
        op, arg = st["op"], st["arg"]
        what = "operation %d (%s %s)" % (nr + 1, op, arg)
        if op in ("lose", "tidy"):
            getattr(w, op)(arg, sorted(set(before) - set(w.want(st["disk"]))))
        elif op == "sample":
            w.sample(arg, st["un"])
        else:
            getattr(w, op)(arg)
        got, want = w.tree(), w.want(st["disk"])
        same(sorted(got), sorted(want), "files of the release after %s" % what)
        bad = [n for n in want if got[n] != want[n]]
        check(not bad, "after %s these files of the release are different: %s", what, bad)
        src = {n: x for k in st["un"] for n, x in w.inner[k][1]}
        same(sorted(n for n in tree_state(w.src) if not n.endswith("/")), sorted(src), "unpacked files after %s" % what)
        check(all(read(os.path.join(w.src, n)) == x for n, x in src.items()), "an unpacked file is different after %s", what)
        before = got
        if w.scans:
            parts = M.split(read(w.srr))
            same(sorted(p[1] for p in parts if p[0] == "st"), sorted(w.name[i] for i in st["stored"]), "stored files after %s" % what)
            data = {p[1]: p[3] for p in parts if p[0] == "st"}
            bad = [w.name[i] for i in st["stored"] if data[w.name[i]] != w.data(i)]
            check(not bad, "after %s these stored files are different: %s", what, bad)
            same(b"".join(p[2] for p in parts if p[0] == "vol"), b"".join(w.parts), "volumes in the SRR after %s" % what)
        else:
            check(not os.path.exists(w.srr), "an SRR that nobody made")
    left = sorted(n for n in os.listdir(w.d) if n not in ("in", "src", "out", "add", "tagged", "other.srr", "tmp") and not n.startswith(("fpcalc", "bin")))
    same(left, [], "other files that stay behind")
    same(os.listdir(os.path.dirname(w.srr)), [os.path.basename(w.srr)] if w.scans else [], "files beside the SRR")
    return {"operations": len(case["b"]["tr"]), "scans": len(w.scans)}


PARTS = {"life": case_life}


def run(ctx):
    q = ctx.quick
    rng = ctx.rng
    r = ctx.tlc("Life", constants=dict(NSets=Set([1]), Music=Set([False]), MaxOps=4 if q else 5), constraint="Emit", invariants=INVS)
    cases = ctx.sample([b for b in r.behaviours if b["tr"]], 60 if q else 700)
    r = ctx.tlc("Life", constants=dict(NSets=Set([1, 2]), Music=Set([True]), MaxOps=10), constraint="Emit", invariants=INVS, simulate=40 if q else 400, depth=40)
    cases += ctx.sample(r.behaviours, 40 if q else 500)
    r = ctx.tlc("Life", constants=dict(NSets=Set([1, 2]), Music=Set([False]), MaxOps=14), constraint="Emit", invariants=INVS, simulate=100 if q else 800, depth=40)
    cases += ctx.sample(r.behaviours, 140 if q else 1500)
    ctx.replay(case_life, [{"b": b, "seed": rng.getrandbits(32)} for b in cases], "life", timeout=180)
    ctx.assumptions += ["no compressed sets (P21) in the histories", "the archived files of a release have different names"]
