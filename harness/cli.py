"""Running the command line entry points in a forked child (they keep global state and a
message thread, and call sys.exit)."""
import io
import os
import select
import signal
import sys
import time


class CliResult(object):
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err

    def __repr__(self):
        return "exit %r out=%r err=%r" % (self.code, self.out[-300:], self.err[-500:])


def cpu_time(pid):
    """seconds of processor time of a process"""
    try:
        with open("/proc/%d/stat" % pid) as fh:
            f = fh.read().rsplit(")", 1)[1].split()
        return sum(int(x) for x in f[11:15]) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 1e9


def run_child(fn, stdin=b"", cwd=None, timeout=60, env=None, uid=None):
    """Run fn() in a forked child with redirected stdio -> CliResult."""
    r_out, w_out = os.pipe()
    r_err, w_err = os.pipe()
    r_in, w_in = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(0)
            os.setpgid(0, 0)
            os.dup2(r_in, 0)
            os.dup2(w_out, 1)
            os.dup2(w_err, 2)
            for fd in (r_out, w_out, r_err, w_err, r_in, w_in):
                if fd > 2:
                    os.close(fd)
            sys.stdin = io.TextIOWrapper(os.fdopen(0, "rb"), encoding="utf-8")
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb"), encoding="utf-8", errors="replace", line_buffering=True)
            sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb"), encoding="utf-8", errors="replace", line_buffering=True)
            if cwd:
                os.chdir(cwd)
            if env:
                os.environ.update(env)
            if uid:
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)
            try:
                rv = fn()
                code = 0 if rv is None else (rv if isinstance(rv, int) and 0 <= rv < 256 else 98)
            except SystemExit as e:
                c = e.code
                if c is None:
                    code = 0
                elif isinstance(c, int):
                    code = c & 255
                else:
                    sys.stderr.write(str(c))
                    code = 1
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 96
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w_out)
    os.close(w_err)
    os.close(r_in)
    try:
        if stdin:
            os.write(w_in, stdin)
    except OSError:
        pass
    os.close(w_in)
    out, err = bytearray(), bytearray()
    end = time.time() + timeout
    last = end + 3 * timeout        # on a busy machine: until it used as much processor time
    fds = {r_out: out, r_err: err}
    code = None
    while fds:
        left = end - time.time()
        if left <= 0 and end < last and cpu_time(pid) < timeout * .6:
            end += timeout / 2
            continue
        if left <= 0:
            break
        rl, _, _ = select.select(list(fds), [], [], left)
        for fd in rl:
            b = os.read(fd, 65536)
            if not b:
                del fds[fd]
            else:
                fds[fd] += b
    for fd in list(fds):
        del fds[fd]
    os.close(r_out)
    os.close(r_err)
    if time.time() >= end:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        return CliResult("hang", out.decode("utf-8", "replace"), err.decode("utf-8", "replace"))
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st):
        code = os.WEXITSTATUS(st)
    else:
        code = -os.WTERMSIG(st)
    return CliResult(code, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"))


def srr(argv, stdin="", cwd=None, timeout=60, **kw):
    from rescene import srr as m
    if hasattr(m, "MessageThread"):
        m.MessageThread.sleeptime = 0.01

    def fn():
        return m.main(list(argv))
    return run_child(fn, stdin.encode(), cwd, timeout, **kw)


def srs(argv, stdin="", cwd=None, timeout=60, **kw):
    from resample import srs as m

    def fn():
        return m.main(list(argv))
    return run_child(fn, stdin.encode(), cwd, timeout, **kw)
