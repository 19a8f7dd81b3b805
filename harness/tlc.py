"""Running TLC on the specifications in /verif/spec and reading back what it prints.

Every spec that generates behaviours prints them as   "B|<json>"   lines (PrintT of a
TLA+ string); everything else comes from TLC's own final statistics."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class TLCError(Exception):
    """The specification or the TLC run itself failed: an error of the machinery."""


def _classpath():
    jars = [JAR]
    d = os.path.dirname(JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and os.path.join(d, f) not in jars:
            jars.append(os.path.join(d, f))
    return ":".join(jars)


class Set(object):
    """A TLA+ set of arbitrary values."""
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.items[:40])) + (" and %d more" % (len(self.items) - 40) if len(self.items) > 40 else "")


class Fn(object):
    """A TLA+ function given by a dict."""
    def __init__(self, d):
        self.d = dict(d)

    def __repr__(self):
        return repr(self.d)[:500]


class Raw(object):
    def __init__(self, text):
        self.text = text


def tla(value):
    """Python value -> TLA+ expression."""
    if isinstance(value, Raw):
        return value.text
    if isinstance(value, Set):
        return "{" + ", ".join(tla(v) for v in value.items) + "}"
    if isinstance(value, Fn):
        return "(" + " @@ ".join("%s :> %s" % (tla(k), tla(v)) for k, v in value.d.items()) + ")"
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        # TLC's own character handling is Latin-1 at best: non-ASCII travels escaped
        v = value.replace("\\", "\\\\").replace('"', '\\"')
        return '"' + re.sub(r"[^\x20-\x7e]", lambda m: "@u%04x@" % ord(m.group()), v) + '"'
    if isinstance(value, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in value) + ">>"
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(v) for v in value)) + "}"
    if isinstance(value, dict):
        if not value:
            return "<<>>"
        return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in value.items()) + "]"
    raise TypeError(value)


def unescape(text):
    return re.sub(r"@u([0-9a-f]{4,5})@", lambda m: json.dumps(chr(int(m.group(1), 16)))[1:-1], text)


class Result(object):
    def __init__(self):
        self.behaviours = []
        self.states = 0          # distinct states
        self.transitions = 0     # states generated
        self.depth = 0
        self.wall = 0.0
        self.exhaustive = True
        self.accepted = True
        self.output = ""
        self.coverage = {}


def run(module, constants=None, constraint=None, invariants=(), properties=(), spec="Spec",
        simulate=None, depth=None, seed=1, workers=8, timeout=600, postcondition=None,
        extra_files=None, view=None, expect_fail=False, heap="4g", coverage=False):
    """Model-check `module`; returns a Result.  A violated invariant raises TLCError unless
    expect_fail (trace validation), where Result.accepted tells the outcome."""
    import time
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPEC_DIR):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC_DIR, f), work)
        for name, data in (extra_files or {}).items():
            with open(os.path.join(work, name), "w") as fh:
                fh.write(data)
        lines = ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK FALSE"]
        defs = []
        for k, v in (constants or {}).items():
            # complex values go through a definition in a wrapper module
            defs.append("def_%s == %s" % (k, tla(v)))
            lines.append("CONSTANT %s <- def_%s" % (k, k))
        for i in invariants:
            lines.append("INVARIANT %s" % i)
        for p in properties:
            lines.append("PROPERTY %s" % p)
        if constraint:
            for c in ([constraint] if isinstance(constraint, str) else constraint):
                lines.append("CONSTRAINT %s" % c)
        if postcondition:
            lines.append("POSTCONDITION %s" % postcondition)
        if view:
            lines.append("VIEW %s" % view)
        wrapper = "Run_" + module
        with open(os.path.join(work, wrapper + ".tla"), "w") as fh:
            fh.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (wrapper, module, "\n".join(defs)))
        with open(os.path.join(work, wrapper + ".cfg"), "w") as fh:
            fh.write("\n".join(lines) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", _classpath(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE",
               "-config", wrapper + ".cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(wrapper + ".tla")
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        res = Result()
        out_path = os.path.join(work, "out.txt")
        with open(out_path, "wb") as out:
            try:
                p = subprocess.run(cmd, cwd=work, stdout=out, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                                   stdin=subprocess.DEVNULL)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        rest = []
        with open(out_path, encoding="utf-8", errors="replace") as fh:
            for line in fh:
                if line.startswith('"B|'):
                    try:
                        res.behaviours.append(json.loads(unescape(json.loads(line.strip())[2:])))
                    except ValueError:
                        rest.append(line)
                else:
                    rest.append(line)
        res.output = text = "".join(rest)
        res.wall = time.time() - t0
        m = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found", text)
        if m:
            res.transitions = int(m[-1][0].replace(",", ""))
            res.states = int(m[-1][1].replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", text)
        if m:  # simulation mode
            res.transitions = int(m.group(1).replace(",", ""))
            res.states = res.transitions
        m = re.search(r"depth of the complete state graph search is (\d+)", text)
        if m:
            res.depth = int(m.group(1))
        res.exhaustive = not simulate
        ok = rc == 0 and ("No error has been found" in text or simulate)
        if rc == -1:
            raise TLCError("TLC timed out on %s after %ss\n%s" % (module, timeout, text[-2000:]))
        if not ok:
            if expect_fail and rc in (10, 11, 12, 13):
                res.accepted = False
            else:
                raise TLCError("TLC failed (rc=%s) on %s:\n%s" % (rc, module, text[-2500:]))
        if coverage:
            for mm in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", text, re.M):
                res.coverage[mm.group(1)] = res.coverage.get(mm.group(1), 0) + int(mm.group(3))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)
