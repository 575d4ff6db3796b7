"""Servers on a pool of threads."""
import sys, os, json, random, socket, tempfile, threading, time, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from wire import *
from session import *
import wsock

ENV = dict(TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4")


def req(rid, do, resp="200 sized 5", body=b"", extra=""):
    return ("POST /do HTTP/1.1\r\nHost: h\r\nx-id: %s\r\nx-do: %s\r\nx-resp: %s\r\n%sContent-Length: %d\r\n\r\n" % (rid, do, resp, extra, len(body))).encode() + body


# ------------------------------------------------------------------ schedules
def play(srv, socks, hist, rng, tag):
    """drives one schedule of spec/PoolJobs.tla; returns (steps that were seen, conns, what is wrong)"""
    n = 1 + max(e[1] for e in hist)
    cns = [dial(rng.choice(socks)) for _ in range(n - 1)]
    sent = [[] for _ in cns]            # kinds
    begun = [0] * len(cns)
    steps, at = [], 0

    def rid(c, i): return "%s.%d.%d" % (tag, c, i)
    def holder(c): return begun[c] and sent[c][begun[c] - 1] == "hold" and (c, begun[c]) not in freed
    freed = set()
    def settle(evs):
        srv.settle(10)
        b = []
        for c in range(len(cns)):
            k = begun[c]
            while k < len(sent[c]) and any(f[0] == "R" for f in srv.byid.get(rid(c, k), [])): k += 1
            b.append(k - begun[c]); begun[c] = k
        steps.append(dict(e=evs, b=b))
    try:
        while at < len(hist):
            # events that come at once: a release alone, or requests of any connections
            m = 1
            if hist[at][0] == "send":
                while at + m < len(hist) and hist[at + m][0] == "send" and rng.random() < .5: m += 1
            evs = [(e[0], e[1], e[2]) for e in hist[at:at + m]]
            at += m
            if evs[0][0] == "release":
                c = evs[0][1] - 1
                if not holder(c): break             # it went another way
                freed.add((c, begun[c]))
                srv.p.stdin.write(b"release %s\n" % rid(c, begun[c] - 1).encode()); srv.p.stdin.flush()
            else:
                for c in sorted({e[1] - 1 for e in evs}, key=lambda _: rng.random()):
                    data = b""
                    for e in evs:
                        if e[1] - 1 == c:
                            data += req(rid(c, len(sent[c])), rng.choice(["hold", "hold,all"]) if e[2] == "hold" else rng.choice(["all", ""]), "200 sized %d" % rng.choice([5, 70000]), b"z" * rng.choice([0, 3, 9000]))
                            sent[c].append(e[2])
                    cns[c].send(data, sync=False)
            settle(evs)
        # the end: everything is released, one by one
        while True:
            hs = [c for c in range(len(cns)) if holder(c)]
            if not hs: break
            c = rng.choice(hs); freed.add((c, begun[c]))
            srv.p.stdin.write(b"release %s\n" % rid(c, begun[c] - 1).encode()); srv.p.stdin.flush()
            settle([("release", c + 1, "")])
        for cn in cns: cn.end()
        for c, cn in enumerate(cns):
            cn.drain()
            msgs = parse_messages(cn.raw, [False] * len(sent[c]))
            if cn.timeout: return steps, "connection %d does not end" % (c + 1)
            got = [(m["status"], hv(m, "x-id"), m["complete"]) for m in msgs]
            want = [(200, [rid(c, i)], True) for i in range(len(sent[c]))]
            if got != want: return steps, "answers are %s, requests were %s" % (got[:4], want[:4])
    except Bad as e: return steps, "not HTTP: %s" % e
    finally:
        for cn in cns: cn.close()
    return steps, None


def schedule_worker(args):
    wid, exe, workers, hists, tls, seed = args
    rng = random.Random(seed * 100 + wid)
    tmp = tempfile.mkdtemp(prefix="fitp_")
    socks = [os.path.join(tmp, "s"), os.path.join(tmp, "t")]
    srv = Server(exe, [socks[0]] + ([socks[1] + ",tls=1"] if tls else []), cwd=tmp, env=dict(ENV, FIT_THREADS=str(workers)))
    addrs = [socks[0]] + (["tls:" + socks[1]] if tls else [])
    bad, recs = [], []
    for i, h in enumerate(hists):
        try: steps, why = play(srv, addrs, h, rng, "w%dh%d" % (wid, i))
        except OSError as e: steps, why = [], "client: %s" % e
        if why and srv.alive(): bad.append(dict(schedule=h, why=why, workers=workers))
        if not srv.alive() or len(bad) > 3: break
        recs.append(dict(w=workers, n=len(steps[0]["b"]), s=[dict(e=[list(e) for e in x["e"]], b=x["b"]) for x in steps]))
    alive = srv.alive()
    rc, err = srv.stop()
    if rc != 0 or not alive: bad.append(dict(why="the server process died: rc=%s %s" % (rc, race(err)), schedule=hists[len(recs) - 1 if recs else 0], workers=workers))
    if any(e.startswith("LEAKED") for e in srv.exc): bad.append(dict(why="an exception left the pool: %s" % srv.exc[:3]))
    shutil.rmtree(tmp, ignore_errors=True)
    return bad, recs


def race(err):
    """the interesting part of a report"""
    ls = [l.strip()[:160] for l in err.splitlines() if "WARNING" in l or "SUMMARY" in l or "ERROR" in l or (l.lstrip().startswith("#") and "fitoria" in l and "asio_handler_invoke" not in l)]
    return " | ".join(ls[:6])[:1500] or err[-600:]


# -------------------------------------------------------------------- expiries
TM = 0.06


def big(rid): return req(rid, "", "200 sized 600000")


def phases(rid, i, r):
    """(bytes at once, seconds until, bytes then, answers they could get) of one attempt"""
    t = max(0.0, TM + r.uniform(-.004, .003))
    long = req(rid, "all", body=b"x" * 400, extra="x-fill: %s\r\n" % ("f" * 300))
    two = [(200, rid), (200, rid + "b")]
    return [
        ("head", long[:40], t, [long[40:90], long[90:]], two[:1]),
        ("dribble", long[:10], t, [bytes([x]) for x in long[10:]], two[:1]),
        ("body", long[:-300], t, [long[-300:-100], long[-100:]], two[:1]),
        ("idle", long, t, [req(rid + "b", "all", body=b"abc")], two),
        ("unread", req(rid, "", body=b"q" * 500)[:-200], t, [b"q" * 200 + req(rid + "b", "")], two),
        ("handler", req(rid, "sleep", body=b"a") + req(rid + "b", "all,sleep", body=b"bc"), t, [b"\r\n"], two),
        ("answer", big(rid), t, [b"POST "], two[:1]),
        ("late", req(rid, "sleep"), TM / 2 + t, [req(rid + "b", "sleep")], two),
        ("quiet", b"", t, [long], two[:1]),
        ("abort", long[:-10], r.uniform(0, TM * 1.2), None, two[:1]),
    ][i % 10]


def attempt(addr, rid, i, r):
    if addr.startswith("tls:") and i % 3 == 0:           # the handshake itself is late
        cn = TlsConn(addr[4:], shake=False)
        cn.step(); hello = cn.outb.read(); c = r.randrange(1, len(hello))
        cn._put(hello[:c]); time.sleep(max(0.0, TM + r.uniform(-.004, .003)))
        cn._put(hello[c:])
        end = time.time() + 1
        while not cn.eof and time.time() < end and not cn.step() and not cn.broken: cn.flush(); cn.pump(0.02)
        cn.close()
        return None
    try: cn = dial(addr)
    except OSError as e:
        if addr.startswith("tls:"): return None          # late after all
        raise
    name, first, wait, then, may = phases(rid, i, r)
    try:
        t = time.time() + wait
        if first: cn.send(first, sync=False)
        if name != "answer":
            while time.time() < t - .001: cn.pump(max(0.0, t - time.time()))
        else: time.sleep(max(0.0, t - time.time()))
        if then is None: return None
        for b in then: cn.send(b, sync=False)
        cn.end(); cn.drain()
        if cn.timeout: return "%s: the connection does not end" % name
        got = [(m["status"], (hv(m, "x-id") or ["-"])[0], m["complete"]) for m in parse_messages(cn.raw, [False] * 4)]
        if got and got[-1][0] is None: got.pop()
        elif got and not got[-1][2]: got[-1] = (*got[-1][:2], True)
        if got and got[-1][0] == 400 and name in ("handler", "answer"): got.pop()
        if got != [(*x, True) for x in may[:len(got)]]: return "%s: answers are %s, not the first of %s" % (name, got, may)
    except Bad as e: return "%s: not HTTP: %s" % (name, e)
    finally: cn.close()
    return None


def expiry_worker(args):
    wid, exe, count, threads, tls, seed = args
    tmp = tempfile.mkdtemp(prefix="fitx_")
    p = [os.path.join(tmp, x) for x in "abcd"]
    opt = ",timeout=%d,hs=%d" % (TM * 1000, TM * 1000)
    srv = Server(exe, [p[0] + opt, p[1]] + ([p[2] + opt + ",tls=1", p[3] + ",tls=1"] if tls else []), cwd=tmp, env=dict(ENV, FIT_THREADS="4"))
    hasty, calm = [p[0]] + (["tls:" + p[2]] if tls else []), [p[1]] + (["tls:" + p[3]] if tls else [])
    bad, stop = [], threading.Event()

    def one(i):
        if stop.is_set() or not srv.alive(): return
        r = random.Random(seed * 1000003 + wid * 10007 + i)
        rid = "x%d-%d" % (wid, i)
        try:
            if i % 8 == 7:                               # others are served as ever
                cn = dial(r.choice(calm))
                try:
                    for k in range(6): cn.send(req("%s-%d" % (rid, k), r.choice(["all", "sleep,all", ""]), "200 %s" % r.choice(["sized 5", "chunked 9,70000,3"]), b"y" * 50))
                    cn.end(); cn.drain()
                    got = [(m["status"], hv(m, "x-id"), m["complete"]) for m in parse_messages(cn.raw, [False] * 6)]
                finally: cn.close()
                why = None if got == [(200, ["%s-%d" % (rid, k)], True) for k in range(6)] else "a patient connection has the answers %s" % got
            else: why = attempt(hasty[i % len(hasty)], rid, i // len(hasty), r)
        except Bad as e: why = "not HTTP: %s" % e
        except OSError as e: why = "client: %s" % e
        if why and srv.alive():
            bad.append(dict(why=why, attempt=i))
            if len(bad) > 5: stop.set()
    parallel(0, one, range(count), threads)
    alive = srv.alive()
    rc, err = srv.stop()
    if rc != 0 or not alive: bad.append(dict(why="the server process died: rc=%s %s" % (rc, race(err))))
    if any(e.startswith("LEAKED") for e in srv.exc): bad.append(dict(why="an exception left the pool: %s" % srv.exc[:3]))
    shutil.rmtree(tmp, ignore_errors=True)
    return bad, count


K = [kind("get", bk="sized"), kind("post", fr="cl", sz=[9, 40], rd="all", bk="sized"), kind("chunked", fr="ch", sz=[5, 300], rd="all", bk="chunked"), kind("unread", fr="cl", sz=[70], bk="null"),
     kind("slow", pre="sleep", bk="sized"), kind("close", conn="close", bk="sized"), kind("none", tgt="none"), kind("throw", act="throw"), kind("safe", tgt="safe", act="throw"), kind("broken", bk="broken"),
     kind("str", tgt="str", fr="ch", sz=[5, 6], bk="sized"), kind("exp", exp=True, fr="cl", sz=[30], rd="all", bk="sized"), kind("gate", tgt="deny", st=403, bk="sized"), kind("both", tgt="both", act="tafter"), kind("dop", tgt="dop", bk="sized")]


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True, san=False, extra=["-fsanitize=thread", "-g1"], defs=["-DFIT_POOL", "-DFITORIA_HAS_OPENSSL"], libs=["-lssl", "-lcrypto"])
    laws = [("TRUE", 2, 2, 3), ("FALSE", 2, 2, 4)] + ([("TRUE", 2, 3, 3), ("FALSE", 3, 2, 4)] if T else [])
    lf = [ck.tlc_async("PoolJobs", spec="Spec", consts=dict(Conns="1..%d" % n, Workers=w, Strands="TRUE", Timers=t, MaxEv=m), invariants=["Alone", "OneIo"], properties=["Refines"] + (["Served"] if t == "FALSE" else []),
                       tag="jobs of %d connections, %d workers%s" % (n, w, ", expiries" if t == "TRUE" else ""), workers=3) for t, n, w, m in laws]
    sf = [(w, ck.tlc_async("PoolJobs", consts=dict(Conns="1..3", Workers=w, Strands="TRUE", Timers="FALSE", MaxEv=5 if T else 4), next="SNext", invariants=["EmitInv"], tag="schedules, %d workers" % w, workers=2)) for w in (1, 2, 3)]
    gf = [("pairs", ck.pool.submit(generate, ck, pairs([[k] for k in K], [[K[0], K[1]], [K[4]], [K[7]]]), 2, 1, False, "two connections")),
          ("pipelines", ck.pool.submit(generate, ck, product(K, K), 1, 1, False, "two requests, pipelined"))]
    wf = ck.tlc_async("WebSocket", invariants=["Delivered", "Echoed", "Pongs", "Final", "Live", "EmitInv"], consts=dict(Frames=wsock.tset([k for k in wsock.F if "+" not in k]), MaxFrames=2, MaxSegs=1), tag="websocket kinds", workers=2)
    exe = exe_f.result()
    rc, _, err = ck.run(exe, ["quit"], args=[os.path.join(ck.tmp, "probe")])
    tsan = True
    if rc and ("FATAL: ThreadSanitizer" in err or "personality" in err):
        tsan = False; ck.assumptions.append("the thread sanitizer does not run here: data races are only seen by their effects")
        exe = ck.build("server", boost=True, defs=["-DFIT_POOL", "-DFITORIA_HAS_OPENSSL"], libs=["-lssl", "-lcrypto"])
    # schedules of held threads
    records, keys = [], []
    parts = []
    for w, f in sf:
        hs = sorted({json.dumps(h) for h in f.result()[0]})
        hs = [json.loads(h) for h in ck.rng.sample(hs, min(len(hs), 1500 if T else 160))]
        parts += [(len(parts) + j, exe, w, hs[j::3], True, ck.seed) for j in range(3)]
    t = time.time()
    with mp.get_context("fork").Pool(9) as pool: res = pool.map(schedule_worker, parts)
    for (wid, _, w, hs, _, _), (bad, recs) in zip(parts, res):
        for b in bad: ck.violation("schedule", b)
        records += recs; keys += hs[:len(recs)]
        for h in hs[:len(recs)]: ck.seen((w, json.dumps(h)))
        ck.steps += len(recs)
    for b in ck.validate("PoolTrace", records, chunk=50): ck.violation("schedule", dict(workers=records[b]["w"], schedule=keys[b], observed=records[b]["s"]))
    ck.note("%d schedules in %.1fs" % (len(records), time.time() - t)); ck.sample(dict(schedule=keys[-1] if keys else None))
    # expiries that meet everything else
    t = time.time()
    if not ck.violations:
        with mp.get_context("fork").Pool(6) as pool: res = pool.map(expiry_worker, [(w, exe, 4000 if T else 700, 12, True, ck.seed) for w in range(6)])
        for bad, n in res:
            for b in bad: ck.violation("expiry", b)
            ck.traces += n; ck.steps += n
        ck.seen(("expiries", len(res), T))
        ck.note("%d expiries in %.1fs" % (sum(n for _, n in res), time.time() - t))
    os.environ.update(ENV)
    for tag, f in gf:
        cases = f.result()
        for tls in ("", ",tls=1"):
            if not ck.violations: run_all(ck, exe, cases if T else ck.rng.sample(cases, min(len(cases), 250)), K, conf=tls, tag="pool %s%s" % (tag, tls))
    if not ck.violations:
        seen = {}
        for r in wf.result()[0]:
            key = json.dumps([r["s"], r["h"], r["o"], r["l"]]); seen[key] = dict(r, e=r["e"] or (key in seen and seen[key]["e"]))
        rs = list(seen.values())
        items = [("s", r, None) for r in (rs if T else ck.rng.sample(rs, min(len(rs), 300)))]
        with mp.get_context("fork").Pool(4) as pool: res = pool.map(wsock.worker, [(w, exe, items[w::4], "tls" if w % 2 else "") for w in range(4)])
        for bad, n in res:
            for b in bad: ck.violation("websocket", b)
            ck.traces += n; ck.steps += n
        for _, r, c in items: ck.seen(json.dumps([r, c]))
        ck.note("%d websocket sessions" % len(items))
    for f in lf: f.result()
    ck.extra["rule"] = "schedules of up to %d requests and releases over 3 connections and 1 to 3 threads, expiries at 10 phases of a connection, and the session and websocket scripts, on a pool of threads%s" % (5 if T else 4, " under the thread sanitizer" if tsan else "")


main("S10", run)
