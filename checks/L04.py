"""The logger middleware: one record per answered request, nothing else
changes."""
import sys, os, select, socket, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from wire import *
from textgen import tla_seq

STACKS = ["n", "l", "e", "g", "ll", "le", "el", "lg", "gl", "elg", "gel", "lgel", "lelg", "route", "nest/in"]
LAYERS = {"n": "", "route": "l", "nest/in": "lgl"}
GATES = ["pass", "deny", "before", "after", "change"]
ACTS = [200, 404, 500, 204, 799, 0, 1]
# method sent, method named, path below the route (raw), user agent or None
V = [("GET", "GET", "/x", "curl/8"), ("POST", "POST", "/a%20b/%c3%bc?x=%31", None), ("DELETE", "DELETE", "/", ""), ("M-SEARCH", "M-SEARCH", "/%7B%7D{0}"[:7], "{} {0} %s %n {:d}"),
     ("BREW", "<unknown>", "/x/y/z", "Mozilla/5.0 (X11; Linux) \xff\xfe"), ("PUT", "PUT", "/%0a%0d%09q", "u" * 3000), ("PATCH", "PATCH", "/%2e%2e/%25%2F", "  spaced  out  "), ("OPTIONS", "OPTIONS", "/" + "p" * 900 + "?" + "q" * 900, "a")]
HEAD = 'HEAD'


def stacks(ids):
    return "{" + ", ".join('[id |-> "%s", path |-> %s, ls |-> <<%s>>]' % (s, tla_seq("/" + s), ", ".join('"%s"' % c for c in LAYERS.get(s, s))) for s in ids) + "}"


def variants(ids):
    return "{" + ", ".join('[id |-> %d, method |-> %s, path |-> %s, ua |-> %s]' % (i, tla_seq(V[i][1]), tla_seq(V[i][2].split("?")[0]), tla_seq((V[i][3] or "").strip()) if (V[i][3] or "").strip() else "<<>>") for i in ids) + "}"


def sset(xs): return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"


class Client:
    def __init__(self, addrs):
        self.addrs, self.s, self.who = addrs, None, None

    def open(self, who):
        if self.s and self.who == who: return
        self.close()
        self.who = who
        if who.startswith("/"):
            self.s = socket.socket(socket.AF_UNIX); self.s.bind(who); a = self.addrs[0]
        elif who == "": self.s = socket.socket(socket.AF_UNIX); a = self.addrs[0]
        else: self.s = socket.socket(); self.s.bind((who, 0)); a = self.addrs[1]
        self.s.settimeout(12); self.s.connect(a)

    def close(self):
        if self.s:
            self.s.close()
            if self.who.startswith("/"): os.unlink(self.who)
        self.s = None

    def ask(self, st, gate, act, v, rid, body, null):
        m, _, path, ua = V[v]
        if act == 1: a = "odd"
        else: a = "throw" if act == 0 else str(act)
        h = "%s /%s%s HTTP/1.1\r\nHost: h\r\nx-id: %s\r\nx-gate: %s\r\nx-act: %s\r\nx-null: %d\r\nContent-Length: %d\r\n" % (m, st, path, rid, gate, a, null, len(body))
        if ua is not None: h += "%s: %s\r\n" % (("User-Agent", "user-agent", "USER-AGENT")[v % 3], ua)
        self.s.sendall((h + "\r\n").encode("latin1") + body)
        raw = b""
        while True:
            try:
                ms = parse_messages(raw)
                if ms and ms[-1]["complete"] and ms[-1]["framing"] != "eof": return ms[0]
            except Bad as e: return str(e)
            try: d = self.s.recv(65536)
            except ConnectionError: d = b""
            if not d: self.close(); return None if not raw else "cut: %r" % raw[:80]
            raw += d


def replay(ck, exe, cases, level, who):
    tmp = tempfile.mkdtemp(prefix="fital_", dir=ck.tmp)
    for attempt in range(5):
        with socket.socket() as s: s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]
        try: srv = Server(exe, [level, tmp + "/s", "tcp:%d" % port], cwd=tmp); break
        except RuntimeError:
            if attempt == 4: raise Infra("the harness does not start")
    cl = Client([tmp + "/s", ("127.0.0.1", port)])
    alt = {b: tmp + "/" + b[1:] for b in who if b.startswith("/")}
    done, want_log, want_runs = 0, [], []
    try:
        for n, c in enumerate(cases):
            for i, (q, a) in enumerate(zip(c["q"], c["a"])):
                w = bytes(q["c"]).decode()
                rid = "c%d-%d" % (n, i)
                body = b"b%d" % n * (n % 50)
                null = n % 3
                try:
                    cl.open(alt.get(w, w))
                    m = cl.ask(q["st"], q["gate"], q["act"], q["v"], rid, body, null)
                except OSError as e: m = "client: %r" % e
                case = dict(request=q, level=level)
                want_runs.append((rid, body, a["ran"], case))
                if a["end"] != "ok": ck.expect("answer", case, None, m); continue
                if not isinstance(m, dict): ck.violation("answer", dict(case=case, expected=a, observed=m)); continue
                ck.expect("answer", case, a["status"], m["status"])
                exp = {"handler": b"" if null == 1 or a["status"] == 204 else b"q" * 300 if null == 2 else b"body-" + rid.encode(), "eh": b"", "gate": b"denied", "change": b"changed"}[a["by"]]
                ck.expect("body", case, (exp, [rid] if a["by"] == "handler" or (a["by"] == "change" and a["ran"] and q["act"] > 1) else []), (m["body"], hv(m, "x-id")))
                ck.steps += 1
            for t in c["log"]: want_log.append((bytes(t["t"]), c["q"], t["lv"]))
            ck.seen(json.dumps(c["q"]) + level); done += 1
            if len(ck.violations) > 20 or not srv.alive(): break
    finally: cl.close()
    rc, err = srv.stop()
    if rc != 0: ck.violation("server", dict(why="the process ends with %s: %s" % (rc, err[-1500:]))); return
    if srv.exc: ck.violation("server", dict(why=srv.exc[:3]))
    got = [ln.split(" ") for ln in srv.lines if ln.startswith("A ")]
    ck.traces += done
    for k in range(max(len(got), len(want_log))):
        g = got[k] if k < len(got) else None
        w = want_log[k] if k < len(want_log) else (None, None, 0)
        text = unhx(g[2]) if g else b""
        w0 = w[0]
        for a, b in alt.items():
            if w0: w0 = w0.replace(b" " + a.encode() + b" ", b" " + b.encode() + b" ", 1)
        if g is None or w0 is None or g[1] != str(w[2]) or not text.startswith(w0) or not re.fullmatch(rb"\d\d:\d\d:\d\d\.\d{6}s" if w[2] == 2 else b"", text[len(w0):]):
            ck.violation("record", dict(request=w[1], expected=w0 and w0.decode("latin1")[:300], observed=g and [g[1], text.decode("latin1")[:300]], number=k, of=[len(got), len(want_log)])); break
    ck.steps += len(want_log)
    for rid, body, ran, case in want_runs:
        runs = [f for f in srv.byid.get(rid, []) if f[0] == "R"]
        if len(runs) != (1 if ran else 0): ck.violation("handler", dict(case=case, why="the handler ran %d times" % len(runs))); break
        if ran and unhx(runs[0][2]) != body: ck.violation("handler", dict(case=case, why="the handler read another body")); break
    ck.note("level %s: %d histories, %d records" % (level, done, len(want_log)))


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("access", boost=True)
    who = ["127.0.0.1", "127.0.0.7", "", "/c"]
    w = lambda ws: "{" + ", ".join(tla_seq(x) if x else "<<>>" for x in ws) + "}"
    inv = ["EmitInv", "Counted"]
    base = dict(Stacks=stacks(STACKS), Gates=sset(GATES), MinLevel=0)
    jobs = [("-", who[:1], ck.tlc_async("AccessLog", consts=dict(base, Acts=sset(ACTS), Variants=variants(range(len(V)) if T else [0, 4]), Clients=w(who[:1]), MaxReqs=1), invariants=inv, workers=2, tag="layers")),
            ("0", who, ck.tlc_async("AccessLog", consts=dict(base, Stacks=stacks(["l", "lgel", "nest/in"]), Gates=sset(["pass", "deny"]), Acts=sset([200, 0]), Variants=variants(range(len(V))), Clients=w(who), MaxReqs=1), invariants=inv, workers=2, tag="texts")),
            ("2", who, ck.tlc_async("AccessLog", consts=dict(base, Stacks=stacks(["n", "l", "el", "lg"]), Gates=sset(["pass", "before", "change"]), Acts=sset([200, 0]), Variants=variants([0, 1]), Clients=w(who[:1]), MaxReqs=2), invariants=["EmitInv"], workers=2, tag="sequences")),
            ("3", who, ck.tlc_async("AccessLog", consts=dict(base, MinLevel=3, Stacks=stacks(["l", "lelg"]), Acts=sset(ACTS), Variants=variants([0, 3]), Clients=w(who[1:2]), MaxReqs=1), invariants=inv, workers=2, tag="filtered")),
            ("off", who, ck.tlc_async("AccessLog", consts=dict(base, MinLevel=7, Stacks=stacks(["l", "lelg", "nest/in"]), Acts=sset(ACTS), Variants=variants([0, 5]), Clients=w(who[:1]), MaxReqs=1), invariants=inv, workers=2, tag="no logger"))]
    exe = exe_f.result()
    for level, ws, f in jobs:
        cases = sorted({json.dumps(r, sort_keys=True) for r in f.result()[0]})
        cases = [json.loads(c) for c in cases]
        if level == "2" and not T and len(cases) > 900: cases = ck.rng.sample(cases, 900)
        replay(ck, exe, cases, level, ws)
        ck.sample(dict(level=level, request=cases[0]["q"], answer=cases[0]["a"]))
    # requests that overlap: every client meets its own records, in its order
    tmp = tempfile.mkdtemp(prefix="fital_", dir=ck.tmp)
    srv = Server(exe, ["-", tmp + "/s"], cwd=tmp)
    n, m = 8, 25 if not T else 200

    def client(k):
        s = Conn(tmp + "/s")
        for i in range(m):
            s.send(("GET /ll/c%d/%d HTTP/1.1\r\nHost: h\r\nx-id: o%d-%d\r\nx-act: %s\r\nx-null: 1\r\nUser-Agent: k%d\r\n\r\n" % (k, i, k, i, "slow" if (i + k) % 3 == 0 else "200", k)).encode())
            if i % 5 == 4 and not s.wait_for(lambda r: r.count(b"HTTP/1.1 200") == i + 1): break
        s.close()
        return s.raw.count(b"HTTP/1.1 200")
    counts = parallel(0, client, range(n), n)
    rc, err = srv.stop()
    if rc or any(c != m for c in counts): ck.violation("overlap", dict(why="answers %s, rc=%s %s" % (counts, rc, err[-600:])))
    by = {}
    for ln in srv.lines:
        if ln.startswith("A "):
            x = re.fullmatch(rb"\[fitoria\.middleware\.logger\]  GET /ll/c(\d+)/(\d+) 200 k(\d+) \d\d:\d\d:\d\d\.\d{6}s", unhx(ln.split(" ")[2]))
            if not x or x.group(1) != x.group(3): ck.violation("overlap", dict(record=unhx(ln.split(" ")[2]).decode("latin1"))); break
            by.setdefault(int(x.group(1)), []).append(int(x.group(2)))
    for k in range(n):
        ck.steps += 2 * m; ck.seen(("overlap", k))
        if not ck.violations: ck.expect("overlap", dict(client=k), [i for i in range(m) for _ in range(2)], by.get(k, []))
    ck.extra["rule"] = "%d stacks of layers x gate x handler behaviour x request texts x clients, sequences of two, log levels, no logger, overlapping clients" % len(STACKS)


main("L04", run)
