"""Common driver: context, parallel replay of behaviours on the real code, findings, evidence."""
import hashlib
import io
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def setup_paths():
    import warnings
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    for p in (REPO, os.path.join(REPO, "usenet"), os.path.join(REPO, "bin")):
        if p not in sys.path:
            sys.path.append(p)
    sys.path.remove(REPO)
    sys.path.insert(0, REPO)


class Failure(Exception):
    """The implementation does not do what the specification says. `key` identifies the
    specific failing input for the known-findings file."""
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Hang(BaseException):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Failure(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Failure("%s: implementation %s, specification %s" % (what, short(got), short(want)))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def stable_hash(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]


# ---------------------------------------------------------------------------
_worker = {}


def _used():
    return sum(sum(resource.getrusage(w)[:2]) for w in (resource.RUSAGE_SELF, resource.RUSAGE_CHILDREN))


def _alarm(signum, frame):
    left = _worker.get("alarms", 0)
    if left > 0 and _used() - _worker["start"] < .6 * _worker["limit"]:      # a busy machine: it got little processor time
        _worker["alarms"] = left - 1
        signal.alarm(max(1, _worker["limit"] // 2))
        return
    raise Hang()


def _init_worker(fn, base, case_timeout, mem):
    setup_paths()
    _worker["fn"] = fn
    _worker["dir"] = tempfile.mkdtemp(prefix="w", dir=base)
    os.chmod(_worker["dir"], 0o1777)
    _worker["timeout"] = case_timeout
    tempfile.tempdir = _worker["dir"]
    os.environ["TMPDIR"] = _worker["dir"]
    os.environ["HOME"] = _worker["dir"]
    with open("/proc/self/statm") as fh:      # what the parent had mapped already does not count
        mem += int(fh.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, _alarm)
    dn = open(os.devnull, "w")
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn.fileno(), 1)
        os.dup2(dn.fileno(), 2)
    ri = open(os.devnull)
    os.dup2(ri.fileno(), 0)
    sys.stdin = ri


def run_case(fn, case, scratch, timeout):
    """-> (failure message or None, key, stats)"""
    d = os.path.join(scratch, "c")
    if os.path.lexists(d):
        _rmtree(d)
    os.mkdir(d)
    os.chdir(scratch)
    signal.signal(signal.SIGALRM, _alarm)
    _worker.update(alarms=4, start=_used(), limit=timeout)
    signal.alarm(timeout)
    try:
        stats = fn(case, d)
        return None, None, stats
    except Failure as e:
        return str(e), e.key, None
    except Hang:
        return "did not terminate within %d s" % timeout, None, None
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
        return "unexpected %s: %s [%s]" % (type(e).__name__, short(str(e), 300), " < ".join(reversed(where))), None, None
    finally:
        signal.alarm(0)
        os.chdir(scratch)
        _rmtree(d)


def _rmtree(d):
    def onerr(func, path, exc):
        try:
            os.chmod(os.path.dirname(path), 0o700)
            os.chmod(path, 0o700)
            func(path)
        except OSError:
            pass
    shutil.rmtree(d, onerror=onerr)


def _run_chunk(chunk):
    out = []
    for idx, case in chunk:
        msg, key, stats = run_case(_worker["fn"], case, _worker["dir"], _worker["timeout"])
        out.append((idx, msg, key, stats))
    return out


class Ctx(object):
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        os.chmod(self.scratch, 0o755)
        self.rng = random.Random(seed)
        self.states = self.transitions = self.traces = 0
        self.specs = []
        self.samples = []
        self.failures = []       # (msg, key, case, part)
        self.counts = {}
        self.assumptions = []
        self.distinct = set()
        self.exhaustive = True
        self.jobs = int(os.environ.get("VERIF_JOBS", "8"))

    # -- specification side -------------------------------------------------
    def tlc(self, module, **kw):
        from . import tlc
        kw.setdefault("seed", self.seed)
        r = tlc.run(module, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.specs.append({"module": module, "states": r.states, "transitions": r.transitions,
                           "behaviours": len(r.behaviours), "exhaustive": r.exhaustive, "wall_s": round(r.wall, 2),
                           "constants": {k: str(v)[:200] for k, v in (kw.get("constants") or {}).items()}})
        return r

    def sample(self, behaviours, n):
        """Deterministic sub-sample (by seed) of at most n behaviours."""
        behaviours = sorted(behaviours, key=lambda b: json.dumps(b, sort_keys=True))
        if len(behaviours) > n:
            self.exhaustive = False
            behaviours = self.rng.sample(behaviours, n)
        return behaviours

    # -- implementation side --------------------------------------------------
    def replay(self, fn, cases, part="", timeout=60, mem=3 << 30, chunk=None, count_traces=True, max_fail=5):
        """Run fn(case, scratch_dir) on every case in worker processes."""
        cases = list(cases)
        if not cases:
            raise RuntimeError("no behaviours to replay for %s" % part)
        stats = {}
        jobs = min(self.jobs, len(cases))
        if chunk is None:
            chunk = max(1, min(64, len(cases) // (jobs * 4) or 1))
        chunks = [[(i, cases[i]) for i in range(s, min(s + chunk, len(cases)))] for s in range(0, len(cases), chunk)]
        nfail = 0
        done = 0
        from concurrent.futures import ProcessPoolExecutor, as_completed
        from concurrent.futures.process import BrokenProcessPool
        mpctx = multiprocessing.get_context("fork")
        ex = ProcessPoolExecutor(jobs, mp_context=mpctx, initializer=_init_worker,
                                 initargs=(fn, self.scratch, timeout, mem))
        try:
            futs = {ex.submit(_run_chunk, c): c for c in chunks}
            for f in as_completed(futs):
                try:
                    results = f.result()
                except BrokenProcessPool:
                    self.failures.append(("the process running the code died", None, futs[f][0][1], part))
                    nfail += 1
                    break
                for idx, msg, key, st in results:
                    done += 1
                    if msg is None:
                        for k, v in (st or {}).items():
                            stats[k] = stats.get(k, 0) + v
                    else:
                        nfail += 1
                        self.failures.append((msg, key, cases[idx], part))
                if nfail >= max_fail * 40:
                    for ff in futs:
                        ff.cancel()
                    break
        finally:
            ex.shutdown(wait=True, cancel_futures=True)
        if count_traces:
            self.traces += done
        self.counts[part or fn.__name__] = dict(stats, cases=done, failed=nfail)
        for c in cases[:2]:
            if len(self.samples) < 6:
                self.samples.append({"part": part, "case": json.loads(short_json(c))})
        return stats

    def fail(self, msg, case=None, key=None, part=""):
        self.failures.append((msg, key, case, part))

    # -- verdict ------------------------------------------------------------------
    def finish(self):
        known = load_known()
        seen_known = {}
        bad = []
        for msg, key, case, part in self.failures:
            k = known.get((self.prop, key)) if key else None
            if k:
                seen_known.setdefault(key, k)
            else:
                bad.append((msg, key, case, part))
        # every listed finding is announced on the unchanged tree
        for (p, key), text in sorted(known.items()):
            if p == self.prop:
                print("KNOWN-FINDING: property=%s %s%s" % (self.prop, text, "" if key in seen_known else " (not reproduced in this run)"))
        rc = 0
        if bad:
            rc = 1
            rd = os.path.join(EVIDENCE, "replays")
            os.makedirs(rd, exist_ok=True)
            shown = set()
            for msg, key, case, part in bad:
                if len(shown) >= 5:
                    break
                sig = part + msg[:60]
                if sig in shown:
                    continue
                shown.add(sig)
                path = os.path.join(rd, "%s-%s.json" % (self.prop, stable_hash([case, msg])))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "part": part, "failure": msg, "case": case, "seed": self.seed,
                               "tier": self.tier}, f, indent=1, default=str)
                print("  %s: %s" % (part, msg[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("%d failing cases" % len(bad))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
               "specs": self.specs, "parts": self.counts, "exhaustive": self.exhaustive}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, os.path.join(EVIDENCE, self.prop + ".json"))
        print("%s %s: %d spec states, %d behaviours replayed, %d violations, %.1f s" % (
            self.prop, self.tier, self.states, self.traces, len(bad), time.time() - self.t0))
        return rc

    def cleanup(self):
        _rmtree(self.scratch)


def short_json(c, n=1500):
    s = json.dumps(c, default=str)
    return s if len(s) <= n else json.dumps(s[:n] + "...")


def load_known():
    """known: property=<id> key=<key> <text>   /   fixed: ... lines are history only."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                parts = line[6:].split(None, 2)
                out[(parts[0].split("=", 1)[1], parts[1].split("=", 1)[1])] = parts[2] if len(parts) > 2 else ""
    return out


def answer(rng, letter):
    """What a user types at a question that takes Y or N only: perhaps something else first."""
    noise = rng.choice(["", "", "", "?\n", "\n", "yn\n", "maybe\n", " \n", "ny\n"])
    return noise + rng.choice([letter.lower(), letter.upper()]) + "\n"
