"""Clients that stall: binds spec/Stall.tla to the real server, in real time."""
import json, os, tempfile, time
from wire import *

TMO = 1.5           # seconds; ten ticks of spec/Stall.tla
STALL = [dict(k="get", parts=2, head=2, early=False), dict(k="all", parts=4, head=2, early=False), dict(k="no", parts=3, head=1, early=True), dict(k="one", parts=3, head=2, early=False),
         dict(k="rd", parts=2, head=1, early=False)]     # rd: the second part is the client reading the large answer


def stall_parts(k, rid):
    h = "%s /do HTTP/1.1\r\nHost: h\r\nx-id: %s\r\nx-resp: 200 sized 5\r\n" % ("GET" if k == "get" else "POST", rid)
    if k == "get": return [h[:20].encode(), (h[20:] + "\r\n").encode()]
    if k == "rd": return [h.replace("POST", "GET").replace("200 sized 5", "200 sized 1500000").encode() + b"\r\n", None]
    h += "x-do: %s\r\n" % ("" if k == "no" else k) if k != "no" else ""
    if k == "all":
        h += "Content-Length: 8\r\n\r\n"
        return [h[:20].encode(), h[20:].encode(), b"abcd", b"efgh"]
    if k == "one":
        h += "Transfer-Encoding: chunked\r\n\r\n"
        return [h[:20].encode(), h[20:].encode(), b"4\r\nabcd\r\n0\r\n\r\n"]
    h += "Content-Length: 8\r\n\r\n"
    return [h.encode(), b"abcd", b"efgh"]


def stalls(ck, exe, recs, tls=False):
    """replays the schedules of spec/Stall.tla all at once, in real time"""
    tmp = tempfile.mkdtemp(prefix="fitst_", dir=ck.tmp)
    sock = os.path.join(tmp, "s")
    srv = Server(exe, [sock + ",timeout=%d" % int(TMO * 1000) + (",tls=1" if tls else "")], cwd=tmp)
    if tls: sock = "tls:" + sock

    def one(item):
        n, r = item
        time.sleep((n % 40) * 0.02)
        parts = [p for q, k in enumerate(r["s"]) for p in stall_parts(k, "t%d-%d" % (n, q))]
        cn = dial(sock)
        t0 = time.time()
        planned = last = t0
        late = 0.0
        pend = None
        todo = []                            # parts without a pause between them arrive together, every other time
        for g, p in zip(r["g"], parts):
            if g == 0 and n % 2 and todo and p is not None and todo[-1][1] is not None: todo[-1] = (todo[-1][0], todo[-1][1] + p)
            else: todo.append((g, p))
        for g, p in todo:
            if g:
                planned = time.time() + g * TMO / 10
                while time.time() < planned and not cn.eof:
                    if p is None: time.sleep(max(0.0, min(0.05, planned - time.time())))
                    else: cn.pump(max(0.0, min(0.05, planned - time.time())))
                late += time.time() - planned
            if cn.eof: break
            last = time.time()
            if p is not None: cn.send(p)
            else:
                base = len(cn.raw)
                cn.wait_for(lambda raw: len(raw) - base >= 1500000, TMO)
                cn.timeout = False
            late += time.time() - last
        quiet = time.time()
        cn.wait_for(lambda raw: False, TMO * 3 + 6)
        end = time.time()
        cn.close()
        if late > 0.4: return None          # this machine was too slow for the schedule
        if cn.timeout: return "a stalled client is not disconnected"
        if end - t0 < TMO * 0.8: return "disconnected %.2fs after the connect, the timeout is %.1fs" % (end - t0, TMO)
        if end - quiet > TMO * 2 + 3: return "disconnected %.2fs after the last byte" % (end - quiet)
        try: msgs = parse_messages(cn.raw)
        except Bad as x: return "not HTTP: %s" % x
        whole = [m for m in msgs if m["complete"]]
        if [m["status"] for m in whole] != [200] * r["a"] or (len(whole) < len(msgs) and "rd" not in r["s"]): return "answers %s, specified %d" % ([m["status"] for m in msgs], r["a"])
        return ""
    res = parallel(0, one, list(enumerate(recs)), 120)
    # what differs is played again when the machine has less to do
    again = [n for n, why in enumerate(res) if why]
    if again and srv.alive():
        recs = recs + [recs[n] for n in again[:40]]
        res = [None if why else why for why in res] if len(again) <= 40 else res
        res += parallel(0, one, list(enumerate(recs))[len(res):], 8)
    rc, err = srv.stop()
    if rc != 0: ck.violation("stall", dict(why="the server process died: rc=%s %s" % (rc, err[-1500:])))
    ok = 0
    for n, (r, why) in enumerate(zip(recs, res)):
        if why is None: continue
        if why: ck.violation("stall", dict(why=why, requests=r["s"], gaps=r["g"], specified=r)); continue
        runs = sum(1 for q in range(len(r["s"])) for f in srv.byid.get("t%d-%d" % (n, q), []) if f[0] == "R")
        if runs != r["r"]: ck.violation("stall", dict(why="%d handlers ran, specified %d" % (runs, r["r"]), requests=r["s"], gaps=r["g"]))
        ok += 1
        ck.seen(json.dumps(["stall", r["s"], r["g"]]))
    ck.traces += ok; ck.steps += ok
    ck.note("stalls: %d of %d schedules replayed" % (ok, len(recs)))
    if ok < len(recs) // 2 and not ck.violations: ck.note("machine too slow for most stall schedules")


def stall_kinds():
    return "{" + ", ".join('[k |-> "%s", parts |-> %d, head |-> %d, early |-> %s]' % (k["k"], k["parts"], k["head"], "TRUE" if k["early"] else "FALSE") for k in STALL) + "}"
