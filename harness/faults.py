"""Running a piece of the real code in a forked child with a fault or a kill injected at one
of its file operations (Python audit events) or at a position of a write (RLIMIT_FSIZE)."""
import io
import json
import os
import resource
import signal
import sys
from .core import Failure

EVENTS = ("open", "os.remove", "os.rename", "os.link", "os.truncate", "os.chmod", "os.symlink", "os.unlink", "shutil.move",
          "shutil.copyfile", "os.listdir", "os.scandir", "os.mkdir")


def run(fn, folders, fault, log=None, events=EVENTS, snapshot=None, stdin=b"", cwd=None):
    """fn() in a child.  fault: None | ("event", k, "error"|"interrupt"|"crash") | ("write", limit, "error"|"crash").
    -> {"outcome": "exit"|"crash", "code", "n", "events": [...], "snaps": [...]}"""
    folders = [os.path.realpath(f) for f in folders]
    rlog, wlog = os.pipe()              # not a file: RLIMIT_FSIZE must not hit the log
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rlog)
            signal.alarm(0)
            r, w = os.pipe()
            os.write(w, stdin)
            os.close(w)
            os.dup2(r, 0)
            sys.stdin = io.TextIOWrapper(os.fdopen(0, "rb", closefd=False), encoding="utf-8")
            if cwd:
                os.chdir(cwd)
            st = {"n": 0, "on": True, "busy": False}
            def emit(o):
                os.write(wlog, (json.dumps(o) + "\n").encode())

            def inside(p):
                p = os.path.realpath(os.fsdecode(p))
                return any(p == f or p.startswith(f + os.sep) for f in folders)

            def hook(event, args):
                if st["busy"] or not st["on"] or event not in events:
                    return
                st["busy"] = True
                try:
                    paths = [a for a in args[:2] if isinstance(a, (str, bytes))]
                    if not any(inside(p) for p in paths):
                        return
                    st["n"] += 1
                    n = st["n"]
                    emit({"ev": event, "snap": snapshot() if snapshot else None, "p": os.fsdecode(paths[0])})
                finally:
                    st["busy"] = False
                if fault and fault[0] == "event" and fault[1] == n:
                    if fault[2] == "crash":
                        os._exit(77)
                    if fault[2] == "interrupt":
                        raise KeyboardInterrupt
                    raise OSError(28, "injected fault")
            sys.addaudithook(hook)
            if fault and fault[0] == "write":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault[2] == "crash" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], resource.RLIM_INFINITY))
            try:
                rv = fn()
                code = rv if isinstance(rv, int) else 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                code = 96
            st["on"] = False
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            emit({"res": code, "n": st["n"]})
            os._exit(0)
        except BaseException:
            os._exit(99)
    os.close(wlog)
    text = bytearray()
    while True:
        b = os.read(rlog, 65536)
        if not b:
            break
        text += b
    os.close(rlog)
    _, status = os.waitpid(pid, 0)
    out = {"outcome": "crash", "code": None, "n": None, "events": [], "snaps": []}
    for line in text.decode().splitlines():
        o = json.loads(line)
        if "ev" in o:
            out["events"].append([o["ev"], o["p"]])
            out["snaps"].append(o["snap"])
        else:
            out["outcome"], out["code"], out["n"] = "exit", o["res"], o["n"]
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99:
        raise Failure("the tool could not be run at all")
    if snapshot:
        out["snaps"].append(snapshot())
    return out
