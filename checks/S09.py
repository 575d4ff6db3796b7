"""TLS endpoints: the handshake and its timeout, and the same sessions, stalls
and websockets as over plain connections."""
import sys, os, ssl, tempfile, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from wire import *
from session import *
from stalls import stalls, stall_kinds
import wsock

TICK = 0.15


def request(rid, last=False):
    return ("POST /do HTTP/1.1\r\nHost: h\r\nx-id: %s\r\nx-do: all\r\nx-resp: 200 sized 40\r\nContent-Length: 6\r\n%s\r\nabcdef" % (rid, "Connection: close\r\n" if last else "")).encode()


def life(sock, rec, n, tag):
    """plays one history of spec/Tls.tla; "" or what differs; None: too slow"""
    cn = TlsConn(sock, shake=False, version=(None, ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3)[n % 3])
    cn.polite = False
    t_reset = time.time()
    answers, late, hello, part = 0, 0.0, b"", b""
    k = 0
    wsat, wsdata, echoes = None, 0, b""
    quiet = time.time()

    def await_answer():
        nonlocal t_reset
        cn.wait_for(lambda raw: len(raw) and len([m for m in parse_messages(raw) if m["complete"]]) >= answers, 6)
        t_reset = time.time()
    try:
        for ev in rec["ev"]:
            due = time.time() + ev["g"] * TICK
            while time.time() < due and not cn.eof: cn.pump(max(0.0, min(0.05, due - time.time())))
            if ev["g"] and not cn.eof: late = max(late, time.time() - due)
            if cn.eof: break
            e, quiet = ev["e"], time.time()
            k += 1
            rid = "%s-%d" % (tag, k)
            if e in ("hello", "half"):
                cn.step(); hello = cn.outb.read()
                c = len(hello) if e == "hello" else [1, 5, 60, len(hello) - 1][n % 4]
                cn._put(hello[:c]); hello = hello[c:]
            elif e == "rest": cn._put(hello)
            elif e in ("fin", "finreq"):
                end = time.time() + 6
                while not cn.step() and not cn.broken and not cn.eof and time.time() < end: cn.flush(); cn.pump(0.05)
                if cn.shaken and e == "finreq":
                    cn.t.write(request(rid))
                cn.flush()
                t_reset = time.time()
                if e == "finreq": answers += 1; await_answer()
            elif e in ("req", "last"): cn.send(request(rid, e == "last")); answers += 1; await_answer()
            elif e == "ws":
                cn.send(wsock.upgrade("w" + rid))
                if not cn.wait_for(lambda raw: (i := raw.rfind(b"HTTP/1.1 101 ")) >= 0 and b"\r\n\r\n" in raw[i:], 6): return "no 101"
                wsat = cn.raw.rfind(b"HTTP/1.1 101 ")
                wsdata = cn.raw.index(b"\r\n\r\n", wsat) + 4
            elif e == "wsm":
                cn.send(wsock.enc(1, b"e" + b"m" * (n % 90))); echoes += wsock.enc(1, b"m" * (n % 90), mask=False)
                if not cn.wait_for(lambda raw: len(raw) - wsdata >= len(echoes), 6): return "no echo"
            elif e == "wsq": cn.send(wsock.enc(1, b"q"))
            elif e == "part": part = request(rid); c = [1, 20, part.index(b"\r\n\r\n")][n % 3]; cn.send(part[:c]); part = part[c:]
            elif e == "rest2": cn.send(part); answers += 1; await_answer()
            elif e == "junk": cn._put([b"NOT TLS RECORDS" * 8, b"\x16\x03\x03\xff\xff" + b"x" * 60, b"\x00" * 64][n % 3])
            elif e == "plain": cn._put(b"GET /do HTTP/1.1\r\nHost: h\r\n\r\n")
            elif e == "bye": cn.notify()
            elif e == "cut":
                cn.close()
                if rec["how"] != "client": return "still open, specified end is %s" % rec["how"]
            late = max(late, time.time() - quiet - 1.0)
        if rec["how"] == "client" and rec["ev"][-1]["e"] == "cut":
            pass
        elif rec["how"] == "late" and rec["dl"] >= 500:
            cn.wait_for(lambda raw: False, 2.2); cn.timeout = False
            if cn.eof: return "disconnected without a timeout"
        else:
            # the end is the close_notify where there is one, else the socket's
            cn.wait_for(lambda raw: cn.clean and rec["how"] == "clean", 7)
            took = time.time() - (t_reset if rec["how"] == "late" else quiet)
            if late > 0.4: return None
            if cn.timeout: return "the connection does not end"
            lim = TICK * (10 if rec["ph"] in ("up", "part") else 8)
            if rec["how"] == "late" and took < lim * .8: return "disconnected after %.2fs, the timeout is %.1fs" % (took, lim)
            if rec["how"] == "late" and took > lim + 2: return "disconnected after %.2fs, the timeout is %.1fs" % (took, lim)
            if rec["how"] != "late" and took > 0.9: return "the end takes %.2fs" % took
            if rec["how"] == "clean":
                if not cn.clean or cn.broken: return "no close_notify at the end (%s)" % cn.broken
                # a client that answers it is let go at once, a silent one in time
                t0, answer = time.time(), n % 2
                if answer: cn.notify()
                cn.wait_for(lambda raw: False, 7)
                if cn.timeout: return "the socket stays open after close_notify"
                if time.time() - t0 > (0.9 if answer else 3.5): return "the socket is closed %.2fs after close_notify" % (time.time() - t0)
        if late > 0.4: return None
        if wsat is not None and cn.raw[wsdata:] != echoes and not (rec["ev"][-1]["e"] == "bye" and cn.raw[wsdata:].startswith(echoes)): return "websocket bytes %r, specified %r" % (cn.raw[wsdata:][:60], echoes[:60])
        try: msgs = parse_messages(cn.raw if wsat is None else cn.raw[:wsat])
        except Bad as x: return "not HTTP: %s" % x
        if [m["status"] for m in msgs] != [200] * rec["a"] or any(m["body"] != pattern(0, 40) for m in msgs): return "answers %s, specified %d" % ([m["status"] for m in msgs], rec["a"])
        return ""
    except ssl.SSLError as x: return "tls: %s" % x
    finally: cn.close()


def lives(ck, exe, recs, hs, tag):
    tmp = tempfile.mkdtemp(prefix="fittl_", dir=ck.tmp)
    sock = os.path.join(tmp, "s")
    srv = Server(exe, [sock + ",tls=1,timeout=1500,hs=%d" % hs], cwd=tmp)

    def one(item):
        n, rec = item
        time.sleep((n % 40) * 0.03)
        why = None
        for a in range(3):
            try: why = life(sock, rec, n, "%s%da%d" % (tag, n, a))
            except OSError as x: why = "client: %s" % x
            if why == "": return "", a
            if not srv.alive(): break
        return why, 2
    res = parallel(0, one, list(enumerate(recs)), 100)
    rc, err = srv.stop()
    if rc != 0: ck.violation("tls", dict(why="the server process died: rc=%s %s" % (rc, err[-1500:])))
    if any(e.startswith("LEAKED") for e in srv.exc): ck.violation("tls", dict(why="an exception left the io_context"))
    ok = 0
    for n, (r, (why, a)) in enumerate(zip(recs, res)):
        if why is None: continue
        key = [[x["e"], x["g"]] for x in r["ev"]]
        if why: ck.violation("tls", dict(why=why, history=key, specified=r)); continue
        ran = sum(1 for k in range(9) for f in srv.byid.get("%s%da%d-%d" % (tag, n, a, k), []) if f[0] == "R")
        if ran != r["a"]: ck.violation("tls", dict(why="%d handlers ran, specified %d" % (ran, r["a"]), history=key)); continue
        ok += 1; ck.seen(json.dumps([tag, key]))
    ck.traces += ok; ck.steps += ok
    ck.note("%s: %d of %d histories" % (tag, ok, len(recs)))
    if ok < len(recs) // 2 and not ck.violations: ck.note("machine too slow for most of them")


K = [kind("get", bk="sized"), kind("post", fr="cl", sz=[9, 40], rd="all", bk="sized"), kind("chunked", fr="ch", sz=[5, 300], rd="all", bk="chunked"), kind("unread", fr="cl", sz=[70], bk="null"),
     kind("big", fr="cl", sz=[40000, 200000], rd="all", bk="sized", plan=[300000], evil=False), kind("bigch", bk="chunked", plan=[100, 70000, 20000]), kind("close", conn="close", bk="sized"), kind("old", v=10, bk="sized"), kind("oldka", v=10, conn="ka", bk="sized"),
     kind("head", head=True, bk="sized"), kind("none", tgt="none"), kind("bad", tgt="bad"), kind("throw", act="throw"), kind("safe", tgt="safe", act="throw"), kind("broken", bk="broken"), kind("exp", exp=True, fr="cl", sz=[30], rd="all", bk="sized"),
     kind("str", tgt="str", fr="ch", sz=[5, 6], bk="sized"), kind("204", st=204), kind("huge", hs="big", fill=20000)]


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True, defs=["-DFITORIA_HAS_OPENSSL"], libs=["-lssl", "-lcrypto"])
    laws = dict(invariants=["NoAnswerBefore", "InTime", "Bounded", "Session", "EmitInv"], properties=["Ends"], spec="Spec", workers=2)
    lf = [(hs, ck.tlc_async("Tls", consts=dict(HsTimeout=8 if hs else 1000, ReqTimeout=10, Gaps="{0, 4, 14}", MaxEvents=5 if T else 4, MaxPauses=1), tag="handshakes, timeout %s" % (hs or "off"), **laws)) for hs in (1200, 0)]
    g = lambda *a: ck.pool.submit(generate, ck, *a)
    S = [("pairs", K, g(product(K, K), 1, 1, False, "two requests over tls")),
         ("segments", K, g(product(K, K[:2]), 1, 3, False, "deliveries in segments")),
         ("cut", K, g(product(K, K[1:2]), 1, 2, True, "a client that ends early")),
         ("two", K, g(pairs([[k] for k in K], [[K[0], K[1]], [K[2]]]), 2, 1, False, "two connections"))]
    wf = ck.tlc_async("WebSocket", invariants=wsock_inv, consts=dict(Frames=wsock.tset([k for k in wsock.F if "+" not in k]), MaxFrames=2, MaxSegs=1), tag="websocket kinds", workers=2)
    wb = ck.tlc_async("WebSocket", invariants=wsock_inv, consts=dict(Frames=wsock.tset([b[0] for b in wsock.BIG]), MaxFrames=1, MaxSegs=1), tag="websocket large", workers=2)
    stf = ck.tlc_async("Stall", consts=dict(Kinds=stall_kinds(), MaxReqs=2, Timeout=10, Gaps="{0, 6, 30}"), invariants=["OnTime", "Served", "Ends", "EmitInv"], tag="stalling clients", workers=2)
    exe = exe_f.result()
    for hs, f in lf:
        uniq = {json.dumps(r, sort_keys=True): r for r in f.result()[0]}
        recs = [uniq[k] for k in sorted(uniq)]
        # the immediate ends are told from timeouts by the runs without one
        short = [r for r in recs if len(r["ev"]) <= 2]
        rest = [r for r in recs if len(r["ev"]) > 2]
        lives(ck, exe, short + ck.rng.sample(rest, min(len(rest), 1500 if T else 200)), hs, "hs%d" % hs)
        ck.sample(dict(handshake=recs[len(recs) // 2]))
    for tag, ks, f in S:
        cases = f.result()
        if not T and len(cases) > 400: cases = ck.rng.sample(cases, 400)
        run_all(ck, exe, cases, ks, conf=",tls=1", tag="tls " + tag)
    items = []
    for f in (wf, wb):
        seen = {}
        for r in f.result()[0]:
            key = json.dumps([r["s"], r["h"], r["o"], r["l"]]); seen[key] = dict(r, e=r["e"] or (key in seen and seen[key]["e"]))
        rs = list(seen.values())
        items += [("s", r, None) for r in (rs if T else ck.rng.sample(rs, min(len(rs), 400)))]
    with mp.get_context("fork").Pool(4) as pool: res = pool.map(wsock.worker, [(w, exe, items[w::4], "tls") for w in range(4)])
    n = sum(x[1] for x in res)
    for bad, _ in res:
        for b in bad: ck.violation("websocket", b)
    for _, r, c in items: ck.seen(json.dumps([r, c]))
    ck.traces += n; ck.steps += n
    ck.note("%d websocket sessions over tls" % n)
    recs = sorted(stf.result()[0], key=json.dumps)
    stalls(ck, exe, ck.rng.sample(recs, min(len(recs), 400 if T else 120)), tls=True)
    ck.extra["rule"] = "all histories of up to %d handshake and request events with a pause, with and without a handshake timeout; sessions, websocket sessions and stalls of the plain checks replayed over TLS 1.2 and 1.3" % (5 if T else 4)


wsock_inv = ["Delivered", "Echoed", "Pongs", "Final", "Live", "EmitInv"]
main("S09", run)
