"""Endpoints: what is bound is served, what cannot be bound is an error, and
the handler sees both ends of its connection; settings read back."""
import sys, os, ssl, select, socket, threading, queue, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import subprocess

TLS = os.path.join(VERIF, "harness", "tls")
A = lambda id, fam, ip, port: dict(id=id, fam=fam, ip=ip, port=port)
# id -> (call, text, port class)
ADDR = {"a": ("v4", "127.0.0.1", 1), "b": ("v4", "127.0.0.1", 2), "c": ("v4", "127.0.0.2", 1), "w": ("v4", "0.0.0.0", 1), "hi": ("v4", "127.0.0.1", 3), "six": ("v6", "::1", 1), "six2": ("v6", "0:0:0:0:0:0:0:1", 1),
        "bad1": ("bad", "localhost", 1), "bad2": ("bad", "", 1), "bad3": ("bad", "256.0.0.1", 1), "bad4": ("bad", "127.0.0.1 ", 1), "bad5": ("bad", "127.0.0.1:80", 1), "bad6": ("bad", "[::1]", 1), "bad7": ("bad", "1.2.3", 1),
        "away": ("bad", "192.0.2.1", 1), "away6": ("bad", "2001:db8::1", 2),
        "u": ("unix", "u", 0), "v": ("unix", "sub/v", 0), "max": ("unix", "MAX", 0), "nodir": ("bad", "nodir/x", 0), "file": ("bad", "file", 0), "dir": ("bad", "sub", 0), "long": ("bad", "LONG", 0), "longer": ("bad", "LONGER", 0)}
TARGET = {"127.0.0.1:1": ("v4", "127.0.0.1", 1), "127.0.0.2:1": ("v4", "127.0.0.2", 1), "127.0.0.1:2": ("v4", "127.0.0.1", 2), "127.0.0.1:3": ("v4", "127.0.0.1", 3), "::1:1": ("v6", "::1", 1), "u": ("unix", "u", 0), "v": ("unix", "sub/v", 0), "max": ("unix", "MAX", 0)}
CANON = {"0.0.0.0": "any", "0:0:0:0:0:0:0:1": "::1"}


def tset(d, ids):
    return "{" + ", ".join('[id |-> "%s", fam |-> "%s", ip |-> "%s", port |-> %d]' % (i, d[i][0], CANON.get(d[i][1], d[i][1]), d[i][2]) for i in ids) + "}"


CTX = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
CTX.check_hostname = False
CTX.verify_mode = ssl.CERT_NONE


class World:
    """one harness process with its own ports and its own directory"""

    def __init__(self, exe, wid, base):
        self.dir = tempfile.mkdtemp(prefix="ep_", dir=base)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe, TLS], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)
        self.wid, self.n = wid, 0
        self.fresh()

    def fresh(self):
        """new ports and a new directory for the next history"""
        self.n += 1
        while True:
            ports = [10000 + (self.wid * 2500 + (self.n * 7 + random.randrange(3)) * 2 + i) % 20000 for i in range(2)] + [61000 + (self.wid * 450 + self.n) % 4500]   # the last above 2**15
            self.n += 1
            good = True
            for fam, ip in ((socket.AF_INET, "0.0.0.0"), (socket.AF_INET6, "::1")):
                for p in ports:
                    s = socket.socket(fam); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    try: s.bind((ip, p))
                    except OSError: good = False
                    s.close()
            if good: break
        self.ports = {1: ports[0], 2: ports[1], 3: ports[2]}
        self.root = os.path.join(self.dir, "h%d" % self.n)
        os.makedirs(os.path.join(self.root, "sub"))
        open(os.path.join(self.root, "file"), "w").close()
        self.log = []

    def path(self, t):
        if t in ("MAX", "LONG", "LONGER"):
            n = {"MAX": 107, "LONG": 108, "LONGER": 300}[t] - len(self.root) - 1
            return self.root + "/" + "m" * n
        return self.root + "/" + t

    def cmd(self, line):
        self.log.append(line)
        try:
            self.p.stdin.write((line + "\n").encode()); self.p.stdin.flush()
        except OSError: raise Died(self.stderr())
        r, _, _ = select.select([self.p.stdout], [], [], 30)
        o = self.p.stdout.readline().decode().rstrip("\n") if r else "HANG"
        if not o: raise Died(self.stderr())
        return o

    def stderr(self):
        try: self.p.wait(10)
        except subprocess.TimeoutExpired: self.p.kill()
        self.err.seek(0)
        return summarize(self.err.read().decode("latin1"))

    def quit(self):
        try: self.cmd_nowait("quit")
        except OSError: pass
        try: rc = self.p.wait(30)
        except subprocess.TimeoutExpired: self.p.kill(); rc = -999
        return rc

    def cmd_nowait(self, line):
        self.p.stdin.write((line + "\n").encode()); self.p.stdin.flush()

    def bind(self, s, a, kind):
        fam, text, port = ADDR[a]
        unixlike = fam == "unix" or port == 0
        text = self.path(text) if unixlike else text
        return self.cmd("bindl %s %s %s" % (s, kind, hx(text.encode())) if unixlike else "bind %s %s %s %d" % (s, kind, hx(text.encode()), self.ports[port]))

    # ------------------------------------------------------------- clients
    def connect(self, t, source=True):
        fam, ip, port = TARGET[t]
        if fam == "unix":
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(10)
            self.last = ""
            if source:
                self.n += 1; self.last = "%s/c%d" % (self.root, self.n)
                if len(self.last) < 108: s.bind(self.last)
                else: self.last = ""
            s.connect(self.path(ip))
            return s, self.path(ip)
        s = socket.socket(socket.AF_INET if fam == "v4" else socket.AF_INET6)
        s.settimeout(10)
        self.last = "::1" if fam == "v6" else "127.0.0.%d" % random.choice([1, 2, 9])
        s.bind((self.last, 0))
        s.connect((ip, self.ports[port]))
        return s, ip


class Died(Exception): pass


def ask(s, what="/who", body=None):
    """one request on an open connection; the answer's body, or None"""
    m = "GET" if body is None else "POST"
    s.sendall(("%s %s HTTP/1.1\r\nHost: h\r\n%s\r\n%s" % (m, what, "" if body is None else "Content-Length: %d\r\n" % len(body), body or "")).encode())
    raw = b""
    while b"\r\n\r\n" not in raw:
        d = s.recv(65536)
        if not d: return None
        raw += d
    h, _, b = raw.partition(b"\r\n\r\n")
    if not h.startswith(b"HTTP/1.1 200 "): return None
    n = int(re.search(rb"(?i)content-length: (\d+)", h).group(1))
    while len(b) < n:
        d = s.recv(65536)
        if not d: return None
        b += d
    return b.decode()


def probe(w, t, want):
    """None, or what is wrong with what a client of target t meets"""
    for tls in (False, True):
        try: s, local = w.connect(t)
        except (ConnectionRefusedError, FileNotFoundError): s = None
        if s is None:
            if want["s"] != "none": return "%s refused, specified is server %s" % (t, want["s"])
            return None
        remote = w.last
        if want["s"] == "none": s.close(); return "%s accepts connections, nothing is bound there" % t
        got = None
        try:
            c = CTX.wrap_socket(s) if tls else s
            if not tls and want["kind"] == "tls": c.settimeout(2)
            got = ask(c)
            if got is not None:
                other = ask(c, "/s/k%s" % t.replace(":", "_"), "body" + t)
                if other != "%s|k%s|body%s" % (want["s"], t.replace(":", "_"), t): return "%s: /s/... answers %r" % (t, other)
        except (ssl.SSLError, ConnectionError, BrokenPipeError, socket.timeout, OSError) as e:
            err = str(e)
        finally: s.close()
        if tls: c.close() if got is not None else None
        exp = "%s|%s|%s" % (want["s"], local, remote) if tls == (want["kind"] == "tls") else None
        if got != exp: return "%s over %s: %r, specified %r" % (t, "tls" if tls else "plain", got, exp)
    return None


def replay(w, case, servers, forms):
    out = w.cmd("reset")
    if out != "ok": return "reset: " + out
    w.fresh()
    for s in servers: w.cmd("new %s form=%s" % (s, forms[s]))
    held = {}
    prev = None
    for step in case:
        if step["a"] == "restart":
            # some connections are open, some the server has closed first
            for t in sorted(prev):
                if prev[t]["s"] == "none": continue
                s, _ = w.connect(t)
                c = CTX.wrap_socket(s) if prev[t]["kind"] == "tls" else s
                c.sendall(b"GET /who HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n")
                while c.recv(65536): pass
                c.close()
            o = w.cmd("reset")
            if o != "ok": return "restart: " + o
            for s in servers: w.cmd("new %s form=%s" % (s, forms[s]))
            for t, h in held.items():
                try: d = h[0].recv(10)
                except OSError: d = b""
                if d: return "%s: bytes on a connection whose server is gone" % t
                h[0].close()
            held = {}; prev = {x["t"]: x["r"] for x in step["see"]}
            d = next((d for d in (probe(w, t, prev[t]) for t in sorted(prev)) if d), None)
            if d: return "after a restart: " + d
            continue
        o = w.bind(step["s"], step["a"], step["k"])
        if o != ("ok self" if step["ok"] else "err"): return "bind of %s to %s (%s): %s, specified %s" % (step["s"], step["a"], step["k"], o, "ok" if step["ok"] else "an error")
        see = {x["t"]: x["r"] for x in step["see"]}
        # every target that changed, and some that did not
        for t in sorted(see):
            if prev is None or prev.get(t) != see[t] or random.random() < .4:
                d = probe(w, t, see[t])
                if d: return d
            if see[t]["s"] != "none" and t not in held:
                s, local = w.connect(t)
                if see[t]["kind"] == "tls": s = CTX.wrap_socket(s)
                if ask(s) != "%s|%s|%s" % (see[t]["s"], local, w.last): return "%s: first answer of a kept connection" % t
                held[t] = (s, see[t]["s"], local, w.last)
        prev = see
    for t, (s, name, local, remote) in held.items():
        try: got = ask(s)
        except OSError as e: got = str(e)
        if got != "%s|%s|%s" % (name, local, remote): return "%s: a connection from before the later binds gets %r" % (t, got)
        s.close()
    o = w.cmd("ping " + servers[0])
    return o if "LEAKED" in o else None


def work_bind(args):
    exe, wid, base, cases, servers, seed = args
    random.seed(seed * 100 + wid)
    w = World(exe, wid, base)
    bad, done = [], 0
    for case in cases:
        try:
            forms = {s: random.choice("lr") for s in servers}
            d = replay(w, case, servers, forms)
            if d: d2 = replay(w, case, servers, forms); d = d2          # ports are shared with the rest of the machine
        except Died as e:
            bad.append(dict(history=case, why="the process died: %s" % e, commands=w.log[-12:]))
            w = World(exe, wid, base); done += 1; continue
        except OSError as e: d = "client: %r" % e
        done += 1
        if d:
            bad.append(dict(history=[[x["s"], x["a"], x["k"], x["ok"]] for x in case], why=d, commands=w.log[-12:]))
            if len(bad) > 4: break
    rc = w.quit()
    if rc != 0: bad.append(dict(why="the process ends with %s: %s" % (rc, w.stderr())))
    return bad, done


def run(ck):
    T = ck.thorough
    import multiprocessing as mp
    exe_f = ck.build_async("endpoints", boost=True, defs=["-DFITORIA_HAS_OPENSSL"], libs=["-lssl", "-lcrypto"])
    all_ids, targets = list(ADDR), list(TARGET)
    try:
        s = socket.socket(socket.AF_INET6); s.bind(("::1", 0)); s.close()
    except OSError:
        all_ids = [a for a in all_ids if not a.startswith("six")]; targets.remove("::1:1")
        ck.assumptions.append("no IPv6 loopback here: IPv6 endpoints are not covered")
    core = [x for x in ("a", "b", "c", "w", "six", "six2", "u", "bad1", "away", "long") if x in all_ids]
    laws = dict(invariants=["EmitInv", "OneOwner", "Refused", "Again", "NoStale"], properties=["Stays"])
    jobs = [("pairs", ck.tlc_async("Endpoints", consts=dict(Addrs=tset(ADDR, all_ids), Targets=tset(TARGET, targets), Servers='{"A", "B"}', Kinds='{"tcp", "tls"}', MaxBinds=2, Restarts=0), workers=2, tag="pairs", **laws)),
            ("triples", ck.tlc_async("Endpoints", consts=dict(Addrs=tset(ADDR, core if T else core[:6]), Targets=tset(TARGET, targets), Servers='{"A", "B"}', Kinds='{"tcp", "tls"}' if T else '{"tcp"}', MaxBinds=3, Restarts=0), workers=2, tag="triples", **laws)),
            ("restarts", ck.tlc_async("Endpoints", consts=dict(Addrs=tset(ADDR, [x for x in ("a", "w", "hi", "six", "u", "max") if x in all_ids]), Targets=tset(TARGET, targets), Servers='{"A"}', Kinds='{"tcp", "tls"}' if T else '{"tcp"}', MaxBinds=5 if T else 4, Restarts=2, ), workers=2, tag="restarts", **laws)),
            ("long", ck.tlc_async("Endpoints", consts=dict(Addrs=tset(ADDR, all_ids), Targets=tset(TARGET, targets), Servers='{"A", "B", "C"}', Kinds='{"tcp", "tls"}', MaxBinds=8, Restarts=1), workers=2, tag="long", simulate=1200 if T else 150, depth=10, invariants=["EmitInv", "OneOwner", "Refused"]))]
    sets = [("max", v) for v in ("1", "7")] + [("hs", v) for v in ("none", "250")] + [("req", v) for v in ("none", "1")] + [("hdr", v) for v in ("none", "4294967295")] + [("body", v) for v in ("none", "0", "18446744073709551615")]
    sf = ck.tlc_async("Settings", init="InitS", next="NextS", consts=dict(Choices="{" + ", ".join('[f |-> "%s", v |-> "%s"]' % x for x in sets) + "}", MaxSets=4 if T else 3), workers=2, tag="settings", invariants=["EmitS", "LastSet"])
    exe = exe_f.result()
    base = os.path.join(ck.tmp, "e"); os.makedirs(base)
    for tag, f in jobs:
        cases = f.result()[0]
        uniq = {json.dumps([[x["s"], x["a"], x["k"]] for x in c]): c for c in cases}
        cases = [uniq[k] for k in sorted(uniq)]
        if tag == "pairs" and not T: cases = ck.rng.sample(cases, min(len(cases), 2200))
        if tag == "restarts":
            cases = [c for c in cases if any(x["a"] == "restart" for x in c[:-1])]
            cases = ck.rng.sample(cases, min(len(cases), 3000 if T else 500))
        if tag == "long": cases = ck.rng.sample(cases, min(len(cases), 4000 if T else 300))
        servers = ["A", "B", "C"] if tag == "long" else ["A", "B"]
        n = 8
        with mp.get_context("fork").Pool(n) as pool:
            res = pool.map(work_bind, [(exe, i, base, cases[i::n], servers, ck.seed) for i in range(n)])
        done = sum(d for _, d in res)
        ck.traces += done; ck.steps += sum(len(c) for c in cases)
        for c in cases: ck.seen(json.dumps([[x["s"], x["a"], x["k"]] for x in c]))
        for bad, _ in res:
            for b in bad: ck.violation("endpoints " + tag, b)
        ck.note("%s: %d histories" % (tag, done))
        if done < len(cases) and not ck.violations: raise Infra("only %d of %d histories" % (done, len(cases)))
        ck.sample(dict(tag=tag, history=[[x["s"], x["a"], x["k"], x["ok"]] for x in cases[-1]]))
    # settings
    cases = sf.result()[0]
    order = ["max", "hs", "req", "hdr", "body"]
    w = World(exe, 9, base)
    try:
        for i, c in enumerate(cases):
            if i % 400 == 0: w.cmd("reset")
            want = " ".join(c["st"][k] for k in order)
            for form in "lr":
                got = w.cmd("new S%d form=%s %s" % (i % 7, form, " ".join("%s=%s" % (x["f"], x["v"]) for x in c["h"])))
                ck.steps += 1; ck.seen(("set", form, json.dumps(c["h"])))
                ck.expect("settings", dict(sets=c["h"], form=form), want, got)
        # the number of connections that may wait to be accepted
        for n in (1, 2, 5, 9):
            w.cmd("reset"); w.fresh(); w.cmd("new A form=l max=%d" % n); w.cmd("pause")
            ck.expect("backlog", dict(max=n), "ok self", w.bind("A", "u", "tcp"))
            ref = os.path.join(w.root, "ref"); rs = socket.socket(socket.AF_UNIX); rs.bind(ref); rs.listen(n)
            counts = []
            for p in (ref, w.path("u")):
                cs = []
                while len(cs) < 40:
                    s = socket.socket(socket.AF_UNIX); s.setblocking(False)
                    try: s.connect(p)
                    except OSError: s.close(); break
                    cs.append(s)
                counts.append(len(cs))
                if p != ref: held = cs
                else:
                    for s in cs: s.close()
            ck.steps += 1
            ck.expect("backlog", dict(max=n), counts[0], counts[1])
            w.cmd("go")
            for s in held:
                s.settimeout(10)
                ck.expect("backlog", dict(max=n, what="a waiting client is served"), "A|%s|" % w.path("u"), ask(s)); s.close()
            rs.close()
    except Died as e: ck.violation("settings", dict(why="the process died: %s" % e, commands=w.log[-5:]))
    except OSError as e: ck.violation("settings", dict(why="client: %r" % e, commands=w.log[-5:]))
    rc = w.quit()
    if rc != 0: ck.violation("settings", dict(why="the process ends with %s: %s" % (rc, w.stderr())))
    ck.extra["rule"] = "all pairs (sampled in quick) and triples of binds of two servers over %d addresses (v4, v4 any, v6, unix, invalid, taken, absent, too long) and both transports, long histories of three servers; after every bind clients of both transports probe %d targets; all sequences of settings" % (len(ADDR), len(TARGET))


main("S08", run)
