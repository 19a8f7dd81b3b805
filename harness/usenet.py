"""A news server for the loopback interface and a yEnc encoder (the environment of spec/Usenet.tla and spec/NntpFile.tla)."""
import random
import socket
import socketserver
import threading
import zlib

CRITICAL = {0, 10, 13, 61}


def yenc_body(data, rng, line=128, extra=0, dots=True):
    """Lines of the encoded data.  extra: probability that a byte that only may be escaped is escaped."""
    out, cur = [], bytearray()
    for b in data:
        e = (b + 42) & 255
        esc = e in CRITICAL or (e in (9, 32, 27) and rng.random() < extra) or (e == 46 and (dots and not cur or rng.random() < extra))
        if e in (9, 32) and not cur:
            esc = True                         # blanks at the ends of a line are escaped by most posters
        if esc:
            cur += bytes((61, (e + 64) & 255))
        else:
            cur.append(e)
        if len(cur) >= line:
            out.append(bytes(cur))
            cur = bytearray()
    if cur:
        out.append(bytes(cur))
    return out


def article(name, data, k=1, total=1, size=None, begin=0, whole=None, rng=None, line=128, multi=None, dots=True, extra=.3, total_field=True, crc32=None):
    """Lines of the body of an article: part k of a file."""
    rng = rng or random.Random(0)
    size = len(data) if size is None else size
    multi = total > 1 if multi is None else multi
    nm = name.encode("utf-8") if isinstance(name, str) else name
    head = []
    if multi:
        head.append(b"=ybegin part=%d %sline=%d size=%d name=%s" % (k, b"total=%d " % total if total_field else b"", line, size, nm))
        head.append(b"=ypart begin=%d end=%d" % (begin + 1, begin + len(data)))
    else:
        head.append(b"=ybegin line=%d size=%d name=%s" % (line, size, nm))
    crc = zlib.crc32(data) & 0xffffffff
    fmt = rng.choice([b"%08x", b"%08X"])
    if multi:
        tail = b"=yend size=%d part=%d pcrc32=%s" % (len(data), k, fmt % crc)
        if whole is not None and k == total and rng.random() < .5:
            tail += b" crc32=" + fmt % whole
    else:
        tail = b"=yend size=%d crc32=%s" % (len(data), fmt % crc)
    return head + yenc_body(data, rng, line, extra, dots) + [tail]


class Server(object):
    """Articles: {message id: lines}.  flaws: {message id: kind}.  Everything asked is logged."""
    def __init__(self, articles, flaws=None, user="", password="", groups=None, lines_header="right", need_group=False):
        self.articles, self.flaws = articles, flaws or {}
        self.user, self.password = user, password
        self.groups, self.lines_header, self.need_group = groups, lines_header, need_group
        self.log = []
        self.lock = threading.Lock()
        outer = self

        class Handler(socketserver.StreamRequestHandler):
            timeout = 60

            def say(self, *lines):
                self.wfile.write(b"".join(x + b"\r\n" for x in lines))

            def handle(self):
                try:
                    self.talk()
                except OSError:
                    pass

            def talk(self):
                authed = not outer.user
                asked = None
                group = None
                self.say(b"200 stub ready")
                while True:
                    line = self.rfile.readline(2000)
                    if not line:
                        return
                    cmd = line.strip().decode("utf-8", "replace")
                    up = cmd.upper()
                    with outer.lock:
                        outer.log.append(cmd)
                    if up == "CAPABILITIES":
                        self.say(b"101 list", b"VERSION 2", b"READER", b".")
                    elif up == "MODE READER":
                        self.say(b"200 ok")
                    elif up.startswith("AUTHINFO USER "):
                        asked = cmd[14:]
                        self.say(b"381 password")
                    elif up.startswith("AUTHINFO PASS "):
                        if (asked, cmd[14:]) == (outer.user, outer.password):
                            authed = True
                            self.say(b"281 ok")
                        else:
                            self.say(b"481 no")
                    elif up == "QUIT":
                        self.say(b"205 bye")
                        return
                    elif not authed:
                        self.say(b"480 login first")
                    elif up.startswith("GROUP "):
                        if outer.groups is None or cmd[6:] in outer.groups:
                            group = cmd[6:]
                            self.say(b"211 1 1 1 " + cmd[6:].encode())
                        else:
                            self.say(b"411 no such group")
                    elif up[:5] in ("BODY ", "HEAD ", "STAT "):
                        what, mid = up[:4], cmd[5:].strip()[1:-1]
                        lines = outer.articles.get(mid)
                        flaw = outer.flaws.get(mid)
                        if outer.need_group and not group:
                            self.say(b"412 no newsgroup selected")
                        elif lines is None or flaw == "missing":
                            self.say(b"430 no such article")
                        elif what == "STAT":
                            self.say(b"223 0 <%s>" % mid.encode())
                        elif what == "HEAD":
                            n = len(lines)
                            h = {"right": [b"Lines: %d" % n], "none": [], "low": [b"Lines: %d" % max(1, n // 3)],
                                 "high": [b"lines: %d" % (n * 3)], "zero": [b"Lines: 0"]}[outer.lines_header]
                            self.say(b"221 0 <%s>" % mid.encode(), b"Subject: x", *(h + [b"Bytes: 1", b"."]))
                        else:
                            if flaw == "noend":
                                lines = lines[:max(2, len(lines) // 2)]
                            elif flaw == "empty":
                                lines = []
                            elif isinstance(flaw, tuple):        # other lines than posted
                                lines = flaw[1]
                            self.say(b"222 0 <%s>" % mid.encode(), *[b"." + x if x.startswith(b".") else x for x in lines])
                            self.say(b".")
                    else:
                        self.say(b"500 what?")

        class TCP(socketserver.ThreadingTCPServer):
            allow_reuse_address = True
            daemon_threads = True
            request_queue_size = 100

        self.tcp = TCP(("127.0.0.1", 0), Handler)
        self.port = self.tcp.server_address[1]
        self.thread = threading.Thread(target=self.tcp.serve_forever, kwargs={"poll_interval": .05}, daemon=True)

    def start(self):
        self.thread.start()
        return self

    def stop(self):
        self.tcp.shutdown()
        self.tcp.server_close()


def closed_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p
