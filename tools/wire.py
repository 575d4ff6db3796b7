"""The concrete side of spec/Session.tla: builds request bytes for the kinds of
a script, drives a real server over unix sockets, parses what comes back."""
import fcntl, os, re, select, shutil, socket, ssl, struct, subprocess, threading, time, termios, tempfile
from concurrent.futures import ThreadPoolExecutor

LIMIT = 12.0            # seconds after which a missing answer counts as missing


def pattern(a, n):
    return bytes(97 + (k * 7 + k // 26 + k // 997) % 26 for k in range(a, a + n))


class Server:
    """A harness process; logs are collected until it is stopped."""

    def __init__(self, exe, socks, env=None, cwd=None):
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1:hard_rss_limit_mb=3000")
        e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1")
        e.update(env or {})
        e.setdefault("FIT_TLS", TLS_DIR)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe] + socks, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=cwd)
        self.lines = []
        self.byid = {}
        self.exc = []
        self.ready = threading.Event()
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()
        if not self.ready.wait(30): raise RuntimeError("server does not start: " + self.stderr())

    def _read(self):
        for ln in self.p.stdout:
            ln = ln.decode("latin1").rstrip("\n")
            if ln == "ready": self.ready.set(); continue
            self.lines.append(ln)
            f = ln.split(" ")
            if f[0] in "RBGW" and len(f) > 1: self.byid.setdefault(f[1], []).append(f)
            elif f[0] in ("X", "LEAKED"): self.exc.append(ln)
        self.ready.set()

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("latin1")

    def alive(self):
        return self.p.poll() is None

    def settle(self, limit=5.0):
        """waits until the process has nothing left to do but wait"""
        end, quiet, seen = time.time() + limit, 0, -1
        while quiet < 3 and time.time() < end and self.alive():
            try:
                idle = True
                for t in os.listdir("/proc/%d/task" % self.p.pid):
                    with open("/proc/%d/task/%s/stat" % (self.p.pid, t)) as f: idle = idle and f.read().rpartition(")")[2].split()[0] == "S"
            except OSError: return
            quiet = quiet + 1 if idle and seen == len(self.lines) else 0
            seen = len(self.lines)
            time.sleep(0.015)

    def stop(self):
        """asks the process to end; returns (rc, stderr)"""
        self.settle()
        try:
            self.p.stdin.write(b"quit\n"); self.p.stdin.flush()
        except OSError: pass
        try:
            rc = self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.p.kill(); rc = -999
        self.t.join(10)
        return rc, self.stderr()


# ------------------------------------------------------------------ requests
PATHS = dict(do="/do", none="/nope", bad="/%zz", safe="/safe/do", str="/str", deny="/gate/do", dop="/do/x", get="/get", both="/both/do", exp="/exp", gate="/gate/do")


def evil(tag, n):
    """body bytes that would make a request if they were taken for one"""
    r = ("POST /do HTTP/1.1\r\nHost: x\r\nx-id: evil-%s\r\nx-do: no\r\nx-resp: 200 null\r\nContent-Length: 0\r\n\r\n" % tag).encode()
    return (r * (n // len(r) + 1))[:n]


def units(k, rid):
    """wire units of one request of kind k (a dict of the TLA record plus
    concrete choices)"""
    sizes = k.get("sz") or [7] * k["n"]
    if k["fr"] == "none": sizes = []
    tgt = k.get("path") or PATHS[k["tgt"]]
    method = k.get("method") or ("HEAD" if k["head"] else ("POST" if k["fr"] != "none" else "GET"))
    hdr = ["Host: localhost", "x-id: " + rid]
    if k["tgt"] == "deny": hdr.append("x-gate: deny")
    if k.get("gate"): hdr.append("x-gate: " + k["gate"])
    do = {"no": "", "one": "one", "all": "all"}[k["rd"]]
    if k.get("pre"): do = k["pre"] + "," + do
    if k["act"] in ("throw", "othrow"): do += "," + k["act"]
    g = {"tbefore": "throw-before", "tafter": "throw-after", "error": "error"}.get(k["act"])
    if g: hdr.append("x-gate: " + g)
    if do.strip(","): hdr.append("x-do: " + do.strip(","))
    hdr.append("x-resp: " + resp_spec(k))
    if k.get("xhdr"): hdr.append("x-hdr: " + k["xhdr"])
    if k["conn"] == "close": hdr.append(k.get("closehdr", "Connection: close"))
    if k["conn"] == "ka": hdr.append("Connection: keep-alive")
    if k["exp"]: hdr.append(k.get("exphdr", "Expect: 100-continue"))
    total = sum(sizes)
    data = k.get("data") or (evil(rid, total) if k.get("evil", True) else pattern(0, total))
    if k["fr"] == "cl": hdr.append("Content-Length: %d" % total)
    if k["fr"] == "ch": hdr.append("Transfer-Encoding: chunked")
    hdr += k.get("hdr", [])
    if k["hs"] == "big" and not k.get("headsize"): hdr.append("x-fill: " + "f" * k.get("fill", 9000))
    if k.get("headsize"):
        have = len("%s %s HTTP/1.1\r\n" % (method, tgt)) + sum(len(h) + 2 for h in hdr) + 2
        hdr.append("x-fill: " + "f" * (k["headsize"] - have - 10))
    head = "%s %s HTTP/1.%d\r\n" % (method, tgt, 1 if k["v"] == 11 else 0) + "".join(h + "\r\n" for h in hdr) + "\r\n"
    if k["hs"] == "syntax": head = k.get("raw", "THIS IS NOT HTTP\r\n\r\n")
    out = [head.encode("latin1")]
    at = 0
    for s in sizes:
        part = data[at:at + s]; at += s
        out.append(part if k["fr"] == "cl" else b"%x%s\r\n%s\r\n" % (s, k.get("ext", "").encode(), part))
    if k["fr"] == "ch": out.append(b"0\r\n" + k.get("trailer", "").encode() + b"\r\n")
    return out, data


def resp_spec(k):
    plan = k.get("plan")
    if plan is None: plan = {"null": [], "sized": [5], "chunked": [3, 4], "broken": [3, "E"], "throws": [3, "T"]}[k["bk"]]
    kind = k.get("bkind") or {"null": "null", "sized": "sized", "chunked": "chunked", "broken": "chunked", "throws": "chunked"}[k["bk"]]
    return "%d %s %s" % (k["st"], kind, ",".join(map(str, plan)))


def resp_body(k):
    plan = k.get("plan")
    if plan is None: plan = {"null": [], "sized": [5], "chunked": [3, 4], "broken": [3, "E"], "throws": [3, "T"]}[k["bk"]]
    n = 0
    for p in plan:
        if p in ("E", "T"): break
        n += p
    return pattern(0, n)


# ----------------------------------------------------------------- responses
class Bad(Exception): pass


TOKEN = re.compile(rb"[!#$%&'*+\-.^_`|~0-9A-Za-z]+\Z")


def parse_messages(raw, heads=()):
    """Strict parse of everything a server sent on one connection.  heads[i] is
    TRUE if the i-th final response answers a HEAD request.  Returns a list of
    dicts; the last may have complete=False."""
    out, at, finals = [], 0, 0
    while at < len(raw):
        e = raw.find(b"\r\n\r\n", at)
        if e < 0:
            out.append(dict(status=None, complete=False, headers=[], body=b"", framing="partial-head", raw=raw[at:at + 200])); break
        lines = raw[at:e].split(b"\r\n")
        m = re.match(rb"HTTP/(\d)\.(\d) (\d\d\d) ([^\r\n]*)\Z", lines[0])
        if not m: raise Bad("status line %r" % lines[0][:80])
        status = int(m.group(3))
        hs = []
        for ln in lines[1:]:
            n, c, v = ln.partition(b":")
            if not c or not TOKEN.match(n): raise Bad("header line %r" % ln[:80])
            hs.append((n.decode().lower(), v.strip(b" \t").decode("latin1"), n.decode()))
        at = e + 4
        cl = [v for n, v, _ in hs if n == "content-length"]
        te = [v for n, v, _ in hs if n == "transfer-encoding"]
        if len(cl) > 1 or (cl and not cl[0].isdigit()): raise Bad("content-length %r" % cl)
        if cl and te: raise Bad("both content-length and transfer-encoding")
        if te and te != ["chunked"]: raise Bad("transfer-encoding %r" % te)
        msg = dict(version=int(m.group(1)) * 10 + int(m.group(2)), status=status, headers=[(n, v) for n, v, _ in hs], complete=True, body=b"",
                   cl=int(cl[0]) if cl else None, te=bool(te), chunks=None)
        interim = 100 <= status < 200 and status != 101
        head = (not interim) and finals < len(heads) and heads[finals]
        if not interim: finals += 1
        if interim or status in (101, 204, 304) or head:
            msg["framing"] = "nobody"
        elif te:
            msg["framing"] = "ch"; msg["chunks"] = []
            body = b""
            while True:
                e = raw.find(b"\r\n", at)
                if e < 0: msg["complete"] = False; at = len(raw); break
                sz = raw[at:e]
                if not re.match(rb"[0-9a-fA-F]{1,16}\Z", sz): raise Bad("chunk size %r" % sz[:40])
                n = int(sz, 16)
                if n == 0:
                    if raw[e + 2:e + 4] == b"\r\n": at = e + 4
                    elif len(raw) < e + 4: msg["complete"] = False; at = len(raw)
                    else: raise Bad("after the last chunk: %r" % raw[e + 2:e + 40])
                    break
                if len(raw) < e + 2 + n + 2:
                    body += raw[e + 2:e + 2 + n]; msg["complete"] = False; at = len(raw); break
                if raw[e + 2 + n:e + 4 + n] != b"\r\n": raise Bad("chunk not ended by CRLF")
                body += raw[e + 2:e + 2 + n]; msg["chunks"].append(n)
                at = e + 4 + n
            msg["body"] = body
        elif cl:
            msg["framing"] = "cl"
            n = int(cl[0])
            msg["body"] = raw[at:at + n]
            msg["complete"] = len(msg["body"]) == n
            at += n
        else:
            msg["framing"] = "eof"
            msg["body"] = raw[at:]; at = len(raw)
        out.append(msg)
        if status == 101:
            msg["rest"] = raw[at:]; break
    return out


def hv(msg, name):
    return [v for n, v in msg["headers"] if n == name]


# -------------------------------------------------------------------- driving
class Conn:
    def __init__(self, addr):
        if isinstance(addr, tuple):
            self.s = socket.create_connection(addr, timeout=LIMIT)
        else:
            self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            self.s.settimeout(LIMIT); self.s.connect(addr)
        self.raw = b""
        self.eof = False          # the server closed or reset
        self.reset = False
        self.timeout = False
        self.s.setblocking(False)

    def pump(self, wait=0.0):
        """reads what is there; returns True if anything was read"""
        if self.eof: return False
        r, _, _ = select.select([self.s], [], [], wait)
        if not r: return False
        try:
            d = self.s.recv(1 << 18)
        except BlockingIOError: return False
        except OSError:
            self.eof = self.reset = True; return True
        if not d: self.eof = True
        self.raw += d
        return True

    def send(self, data, sync=True):
        at = 0
        end = time.time() + LIMIT
        while at < len(data) and not self.reset:
            r, w, _ = select.select([self.s] if not self.eof else [], [self.s], [], 1.0)
            if r: self.pump()
            if w:
                try:
                    at += self.s.send(data[at:at + (1 << 18)])
                except BlockingIOError: time.sleep(0.0005)
                except OSError: return False
            if time.time() > end: return False
            if self.eof: break
        if sync: self.sync()
        return at == len(data)

    def sync(self, limit=0.02):
        """waits until the server has taken what was sent (or does not want it)"""
        end = time.time() + limit
        while time.time() < end and not self.eof:
            try:
                q = struct.unpack("i", fcntl.ioctl(self.s, termios.TIOCOUTQ, b"\0\0\0\0"))[0]
            except OSError: return
            if q == 0: return
            self.pump(0.0005)

    def end(self):
        try: self.s.shutdown(socket.SHUT_WR)
        except OSError: pass

    def wait_for(self, pred, limit=LIMIT):
        end = time.time() + limit
        while not pred(self.raw):
            if self.eof: return False
            if time.time() > end: self.timeout = True; return False
            self.pump(0.05)
        return True

    def drain(self, limit=LIMIT):
        self.wait_for(lambda r: False, limit)

    def close(self):
        try: self.s.close()
        except OSError: pass


TLS_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "tls")


def tls_context():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    return c


class TlsConn(Conn):
    """the same client over TLS; every send() is one record or more"""

    def __init__(self, addr, shake=True, version=None):
        super().__init__(addr)
        self.c = tls_context()
        if version: self.c.minimum_version = self.c.maximum_version = version
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.t = self.c.wrap_bio(self.inb, self.outb, server_hostname="localhost")
        self.clean = False        # the server said close_notify
        self.broken = None        # the TLS layer failed
        self.shaken = False
        self.polite = True        # answers a close_notify
        self.wirebytes = 0        # bytes received on the socket
        if shake and not self.handshake(): raise OSError("tls handshake: %s" % (self.broken or "no answer"))

    def flush(self):
        d = self.outb.read()
        return self._put(d) if d else True

    def _put(self, d):
        at, end = 0, time.time() + LIMIT
        while at < len(d) and not self.reset:
            r, w, _ = select.select([self.s] if not self.eof else [], [self.s], [], 1.0)
            if r: self.pump()
            if w:
                try: at += self.s.send(d[at:at + (1 << 18)])
                except BlockingIOError: time.sleep(0.0005)
                except OSError: return False
            if time.time() > end or self.eof: break
        return at == len(d)

    def step(self):
        """one step of the handshake; True when it is done"""
        if self.shaken or self.broken: return self.shaken
        try: self.t.do_handshake(); self.shaken = True
        except ssl.SSLWantReadError: pass
        except ssl.SSLError as e: self.broken = str(e)
        return self.shaken

    def handshake(self, limit=None):
        end = time.time() + (limit or LIMIT)
        while not self.step() and not self.broken and not self.eof and time.time() < end:
            self.flush(); self.pump(0.05)
        self.flush()
        return self.shaken

    def pump(self, wait=0.0):
        if self.eof: return False
        r, _, _ = select.select([self.s], [], [], wait)
        if not r: return False
        try: d = self.s.recv(1 << 18)
        except BlockingIOError: return False
        except OSError: self.eof = self.reset = True; return True
        self.wirebytes += len(d)
        if d: self.inb.write(d)
        if self.shaken: self.decode()
        if not d: self.eof = True
        elif self.clean and self.polite: self.polite = False; self.notify()
        return True

    def decode(self):
        try:
            while True:
                d = self.t.read(1 << 18)
                if not d: self.clean = True; break
                self.raw += d
        except ssl.SSLWantReadError: pass
        except ssl.SSLZeroReturnError: self.clean = True
        except ssl.SSLError as e: self.broken = str(e)

    def send(self, data, sync=True):
        if not self.shaken: return False
        try:
            for at in range(0, len(data), 1 << 17):
                self.t.write(data[at:at + (1 << 17)])
                if not self.flush(): return False
        except ssl.SSLError: return False
        if sync: self.sync()
        return True

    def notify(self):
        """our close_notify; reading goes on"""
        try: self.t.unwrap()
        except (ssl.SSLError, ValueError): pass
        self.flush()

    def end(self):
        self.notify(); super().end()


def dial(addr):
    if isinstance(addr, str) and addr.startswith("tls:"): return TlsConn(addr[4:])
    return Conn(addr)


def parallel(n, f, items, threads=6):
    with ThreadPoolExecutor(threads) as ex:
        return list(ex.map(f, items))
