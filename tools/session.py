"""Binds spec/Session.tla to the real server: TLC enumerates scripts, segment
histories and the outcomes the specification allows; every history is replayed
against fitoria's http_server over unix sockets and judged."""
import json, multiprocessing as mp, os, tempfile, threading, time
from wire import *

DEFAULT = dict(tgt="do", v=11, conn="none", fr="none", n=0, rd="no", act="resp", st=200, bk="null", head=False, exp=False, hs="ok", over=False)
FIELDS = list(DEFAULT)
INVS = ["Order", "Sync", "Runs", "Last", "Confluent", "Live", "EmitInv"]


def kind(name, **kw):
    k = dict(DEFAULT); k.update(kw); k["k"] = name
    if k["fr"] != "none" and "sz" in k: k["n"] = len(k["sz"])
    elif k["fr"] != "none" and not k["n"]: k["n"] = 1
    if k["fr"] == "none": k["n"] = 0
    return k


def tla(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    return '"%s"' % v if isinstance(v, str) else str(v)


def rec(k):
    return "[" + ", ".join("%s |-> %s" % (f, tla(k[f])) for f in FIELDS + ["k"]) + "]"


def kset(ks): return "{" + ", ".join(rec(k) for k in ks) + "}"


def seqs(ks, lo, hi):
    """all scripts of lo..hi requests over the kinds, as functions 1 -> sequence"""
    return "LET K == %s IN {[c \\in {1} |-> s] : s \\in UNION {[1..m -> K] : m \\in %d..%d}}" % (kset(ks), lo, hi)


def product(*sets):
    """scripts that take their k-th request from the k-th set"""
    names = "".join("K%d == %s " % (i, kset(s)) for i, s in enumerate(sets))
    vs = ", ".join("x%d \\in K%d" % (i, i) for i in range(len(sets)))
    return "LET %s IN {[c \\in {1} |-> <<%s>>] : %s}" % (names, ", ".join("x%d" % i for i in range(len(sets))), vs)


def pairs(a, b):
    """two connections: all scripts of a on the first, of b on the second (lists of lists of kinds)"""
    f = lambda ls: "{" + ", ".join("<<" + ", ".join(rec(k) for k in l) + ">>" for l in ls) + "}"
    return "LET A == %s B == %s IN {[c \\in {1, 2} |-> IF c = 1 THEN a ELSE b] : a \\in A, b \\in B}" % (f(a), f(b))


def generate(ck, scripts, conns=1, segs=2, truncate=False, tag=None, timeout=800, workers=6, invs=INVS):
    """Runs TLC; returns [(names per conn, history, allowed outcomes per conn)]"""
    recs, _ = ck.tlc("Session", invariants=invs, consts=dict(Scripts=scripts, Conns="1..%d" % conns, MaxSegs=segs, Truncate="TRUE" if truncate else "FALSE"),
                     tag=tag, timeout=timeout, workers=workers)
    groups = {}
    for r in recs:
        key = json.dumps([r["s"], r["h"]])
        g = groups.setdefault(key, [set() for _ in range(conns)])
        for c in range(conns): g[c].add(json.dumps([r["o"][c], r["l"][c], r["x"][c]]))
    out = []
    for key, g in groups.items():
        s, h = json.loads(key)
        out.append((s, h, [[json.loads(o) for o in sorted(x)] for x in g]))
    return out


# ------------------------------------------------------------------- judging
def close_token(m):
    return any("close" in [t.strip().lower() for t in v.split(",")] for v in hv(m, "connection"))


def check_answer(a, m, k, rid):
    """does the parsed message m equal the answer a of the specification?"""
    want_body = None
    if m["status"] is None: return "incomplete" if a["fr"] != "chcut" else None
    if a["by"] == "interim":
        return None if m["status"] == 100 and m["cl"] in (None, 0) and not m["te"] else "not an interim answer"
    if m["status"] != a["st"]: return "status %s, specified %s" % (m["status"], a["st"])
    if a["by"] == "handler":
        if hv(m, "x-id") != [rid]: return "answer carries x-id %s" % hv(m, "x-id")
        want_body = resp_body(k)
        want = {}
        for h in [x for x in k.get("xhdr", "").split(",") if x]:
            n, _, v = h.partition("=")
            want.setdefault(n.lower(), []).append(v)
        for n in want:
            if n not in ("connection", "content-length", "transfer-encoding") and hv(m, n) != want[n]: return "header %s is %s, set were %s" % (n, hv(m, n), want[n])
        more = [n for n, _ in m["headers"] if n not in want and n not in ("x-id", "connection", "content-length", "transfer-encoding", "date", "server", "content-type")]
        if more: return "headers %s were never set" % more
    elif a["by"] in ("error", "fine"):
        want_body = b"my-error" if a["by"] == "error" else b"fine"
        if a["by"] == "error" and hv(m, "x-id") != [rid]: return "answer carries x-id %s" % hv(m, "x-id")
    elif a["by"] == "deny":
        if hv(m, "x-id") != [rid]: return "answer carries x-id %s" % hv(m, "x-id")
        want_body = pattern(0, 6)
    fr = a["fr"]
    if fr == "chcut":
        if m["complete"] and m["framing"] != "nobody": return "a failed stream looks complete"
        if want_body is not None and not want_body.startswith(m["body"]): return "body differs"
        return None
    if not m["complete"]: return "incomplete"
    if fr == "nobody":
        if m["framing"] != "nobody": return "has a body"
        if (a["st"] < 200 or a["st"] == 204) and (m["cl"] is not None or m["te"]): return "1xx/204 with content-length or transfer-encoding"
        if a["head"] and a["st"] != 304 and want_body is not None and m["cl"] not in (None, len(want_body)): return "HEAD content-length %s" % m["cl"]
    elif fr == "ch":
        if m["framing"] != "ch": return "not chunked"
        if m["body"] != want_body: return "body differs"
    else:
        if m["framing"] != "cl": return "framing is %s" % m["framing"]
        if fr == "cl0" and a["by"] == "handler" and m["cl"] != 0: return "body %r" % m["body"][:40]
        if fr == "cl" and want_body is not None and m["body"] != want_body: return "body differs"
    if m["version"] == 11 and close_token(m) == a["keep"]: return "connection header does not match keep-alive"
    if m["version"] == 10 and a["keep"] and not any("keep-alive" in v.lower() for v in hv(m, "connection")): return "HTTP/1.0 answer without keep-alive"
    return None


def check_log(l, entries, k, rid, data):
    reqs = [e for e in entries if e[0] == "R"]
    reads = [e for e in entries if e[0] == "B"]
    if len(reqs) != 1: return "handler ran %d times" % len(reqs)
    saw = l["saw"]
    if saw == "no": return None if not reads else "unexpected read"
    if not reads: return "no read logged"
    e = reads[0]
    got = bytes.fromhex(e[4]) if e[4] != "-" else b""
    if saw == "err": return None if e[3] == "err" else "read gave %s instead of an error" % e[3]
    if saw == "end": return None if e[3] == "end" else "read gave %s instead of the end" % e[3]
    if e[3] != "ok": return "read gave %s" % e[3]
    if saw == "all": return None if got == data else "handler saw %d bytes, sent were %d" % (len(got), len(data))
    if k["over"] and len(got) > k["limit"]: return "handler saw %d bytes over a limit of %d" % (len(got), k["limit"])
    return None if got and data.startswith(got) else "handler saw bytes that were not sent"


def judge(kinds, rids, datas, outcome, obs):
    """None if the observation is this outcome, else what differs"""
    o, l, x = outcome
    msgs = obs["msgs"]
    if isinstance(msgs, str): return msgs
    want = list(o)
    if want and want[-1]["fr"] == "chcut" and len(msgs) == len(want) - 1: want = want[:-1]     # nothing of it was sent
    if len(msgs) != len(want): return "%d answers, specified %d (%s)" % (len(msgs), len(want), [m["status"] for m in msgs])
    for a, m in zip(want, msgs):
        i = a["i"] - 1
        d = check_answer(a, m, kinds[i], rids[i])
        if d: return "answer to request %d: %s" % (a["i"], d)
    runs = {e["i"]: e for e in l}
    for i, rid in enumerate(rids):
        ent = [e for e in obs["log"].get(rid, []) if e[0] in "RB"]
        if i + 1 in runs:
            d = check_log(runs[i + 1], ent, kinds[i], rid, datas[i])
            if d: return "request %d: %s" % (i + 1, d)
        elif any(e[0] == "R" for e in ent): return "handler ran for request %d" % (i + 1)
    for i, rid in enumerate(rids):
        n = sum(1 for e in obs["exc"] if e == "X boom-" + rid)
        if n != (1 if i + 1 in x else 0): return "exception handler called %d times for request %d" % (n, i + 1)
    for rid in obs["log"]:
        if rid.startswith("evil-") and rid[5:] in rids: return "body bytes of %s were taken for a request" % rid[5:]
    if obs["timeout"]: return "the connection does not end"
    return None


def by_server(outcome, n):
    """does the server end the connection first in this outcome?"""
    o, l, x = outcome
    if x or not o: return True
    if o and (not o[-1]["keep"] or o[-1]["fr"] == "chcut"): return True
    return len([a for a in o if a["by"] != "interim"]) < n


def replay(server, addr, case, kindmap, cid, bytewise=None):
    """one history; returns observations per connection (logs are added later)"""
    names, hist, allowed = case
    nc = len(names)
    ks = [[kindmap[x] for x in n] for n in names]
    rids = [["%s-%d-%d" % (cid, c, i) for i in range(len(ks[c]))] for c in range(nc)]
    us, datas = [], []
    for c in range(nc):
        fl, ds = [], []
        for k, r in zip(ks[c], rids[c]):
            u, d = units(k, r); fl += [(x, k, j == 0) for j, x in enumerate(u)]; ds.append(d)
        us.append(fl); datas.append(ds)
    conns = [dial(addr) for _ in range(nc)]
    sent = [0] * nc
    notes = [None] * nc
    try:
        for c, upto in hist:
            c -= 1
            cn = conns[c]
            if upto == 0:
                if not all(by_server(o, len(ks[c])) for o in allowed[c]) or sent[c] < len(us[c]): cn.end()
                continue
            # a client that waits for 100 (Continue) after an expecting header block
            part = us[c][sent[c]:upto]
            if sent[c] > 0 and us[c][sent[c] - 1][2] and us[c][sent[c] - 1][1]["exp"] and us[c][sent[c] - 1][1]["hs"] == "ok":
                need = sum(1 for u in us[c][:sent[c]] if u[2] and u[1]["exp"])
                have = [len([a for a in o[0] if a["by"] == "interim"]) >= need for o in allowed[c]]
                if any(have) and not cn.wait_for(lambda r: r.count(b"HTTP/1.1 100 ") >= need) and all(have): notes[c] = "no interim answer before the body"
            data = b"".join(x for x, _, _ in part)
            if bytewise: 
                at = 0
                for b in bytewise(data): cn.send(data[at:b]); at = b
                cn.send(data[at:])
            else: cn.send(data)
            sent[c] = upto
            for other in conns: other.pump()
        for cn in conns: cn.drain()
    finally:
        for cn in conns: cn.close()
    obs = []
    for c, cn in enumerate(conns):
        heads = [k["head"] for k in ks[c]]
        try: msgs = parse_messages(cn.raw, heads)
        except Bad as e: msgs = "not HTTP: %s" % e
        if notes[c]: msgs = notes[c]
        obs.append(dict(msgs=msgs, timeout=cn.timeout, raw=cn.raw[:1500].decode("latin1"), kinds=ks[c], rids=rids[c], datas=datas[c]))
    return obs


def _worker(args):
    wid, exe, conf, cases, kindmap, threads, cuts = args
    tmp = tempfile.mkdtemp(prefix="fits_")
    bad, done, notes = [], 0, []
    todo = list(enumerate(cases))
    crashes = 0
    while todo:
        sock = os.path.join(tmp, "s%d" % crashes)
        srv = Server(exe, [sock + conf], cwd=tmp)
        results, lock, stop = {}, threading.Lock(), threading.Event()

        def one(item):
            i, case = item
            if stop.is_set() or not srv.alive(): return
            try:
                r = replay(srv, ("tls:" if ",tls=1" in conf else "") + sock, case[:3], kindmap, "w%dc%d" % (wid, i), case[3] if len(case) > 3 else None)
            except OSError as e:
                if srv.alive(): r = [dict(msgs="client: %s" % e, timeout=False, raw="", kinds=[kindmap[x] for x in n], rids=["?"] * len(n), datas=[b""] * len(n)) for n in case[0]]
                else: return
            with lock: results[i] = r
            if sum(1 for q in r if q["timeout"]): notes.append(i)
            if len(notes) > 12: stop.set()
        parallel(0, one, todo, threads)
        alive = srv.alive()
        rc, err = srv.stop()
        for i, case in todo:
            if i not in results: continue
            done += 1
            for c, ob in enumerate(results[i]):
                ids = set(ob["rids"])
                ob["log"] = {r: srv.byid.get(r, []) for r in ids}
                for r in srv.byid:
                    if r.startswith("evil-") and r[5:] in ids: ob["log"][r] = srv.byid[r]
                ob["exc"] = [e for e in srv.exc if e[2:].replace("boom-", "") in ids]
                why = [judge(ob["kinds"], ob["rids"], ob["datas"], o, ob) for o in case[2][c]]
                if all(why):
                    bad.append(dict(script=case[0], history=case[1], connection=c + 1, why=min(why, key=len) if len(why) > 1 else why[0], allowed=case[2][c][:3], received=ob["raw"],
                                    log=[" ".join(e)[:200] for r in ob["log"].values() for e in r][:12]))
        left = [it for it in todo if it[0] not in results]
        if rc != 0 or not alive:
            crashes += 1
            bad.append(dict(script=[c[0] for _, c in todo if _ not in results][:4], why="the server process died: rc=%s %s" % (rc, err[-1500:])))
            if crashes > 2 or not left: break
            todo = left
            continue
        if any(e.startswith("LEAKED") for e in srv.exc): bad.append(dict(why="an exception left the io_context: %s" % [e for e in srv.exc if e.startswith("LEAKED")][0]))
        break
    shutil.rmtree(tmp, ignore_errors=True)
    return bad, done


def run_all(ck, exe, cases, kinds, conf="", threads=6, procs=8, cuts=None, tag=""):
    """replays all cases in several processes; reports violations on ck"""
    kindmap = {k["k"]: k for k in kinds}
    assert len(kindmap) == len(kinds)
    t = time.time()
    procs = max(1, min(procs, (len(cases) + 7) // 8))
    parts = [(w, exe, conf, cases[w::procs], kindmap, threads, cuts) for w in range(procs)]
    with mp.get_context("fork").Pool(procs) as pool: res = pool.map(_worker, parts)
    total = 0
    for bad, done in res:
        total += done
        for b in bad: ck.violation("session " + tag, b)
    for c in cases: ck.seen(json.dumps([c[0], c[1]]))
    ck.traces += total; ck.steps += total
    ck.note("%s: %d histories replayed in %.1fs" % (tag or "session", total, time.time() - t))
    if total < len(cases) and not ck.violations: raise RuntimeError("only %d of %d histories replayed" % (total, len(cases)))
    return total
