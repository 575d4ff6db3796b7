"""Replays byte streams of spec/Wire.tla against the real server."""
import json, multiprocessing as mp, os, shutil, tempfile, time
from wire import *

VERBS = set("DELETE GET HEAD POST PUT CONNECT OPTIONS TRACE COPY LOCK MKCOL MOVE PROPFIND PROPPATCH SEARCH UNLOCK BIND REBIND UNBIND ACL REPORT MKACTIVITY CHECKOUT MERGE M-SEARCH NOTIFY SUBSCRIBE UNSUBSCRIBE PATCH PURGE MKCALENDAR LINK UNLINK".split())


def h(b): return bytes(b).hex() or "-"


def want_view(a):
    """the parts of the answer of the see handler"""
    m = bytes(a["m"]).decode()
    q = sorted("%s=%s" % (h(k), h(v)) for k, v, _ in a["q"])
    names = {}
    for f in a["hs"]: names.setdefault(bytes(f["n"]).decode().lower(), []).append((h(f["n"]), h(f["v"])))
    return dict(method=m if m in VERBS else "<unknown>", version="1.%d" % (a["v"] - 10), pattern="/see/#rest", path=h(a["path"]), rest=h(a["rest"]), names=names, q=q,
                body="err" if a["cut"] else "ok " + h(a["body"]))


def got_view(text):
    f = text.split(" ")
    if len(f) < 8: return None
    names = {}
    if f[5] != ".":
        for x in f[5].split(","):
            n, v = x.split("=")
            names.setdefault(bytes.fromhex(n if n != "-" else "").decode("latin1").lower(), []).append((n, v))
    return dict(method=f[0], version=f[1], pattern=f[2], path=f[3], rest=f[4], names=names, q=[] if f[6] == "." else f[6].split(","), body=" ".join(f[7:]))


def judge(case, msgs, timed_out):
    """None or what differs; case: answers a and ending e of the specification"""
    a, e = case["a"], case["e"]
    fin = [m for m in msgs if not (m["status"] is not None and 100 <= m["status"] < 200)]
    if timed_out: return "the connection does not end"
    extra = [] if e == "grey" else fin[len(a):]
    if len(fin) < len(a): return "%d answers, specified %d" % (len(fin), len(a))
    for i, (x, m) in enumerate(zip(a, fin)):
        if not m["complete"]: return "answer %d is incomplete" % (i + 1)
        if m["status"] != x["st"]: return "answer %d has status %s, specified %d" % (i + 1, m["status"], x["st"])
        if m["version"] == 11 and not x["cut"]:
            cl = any("close" in v.lower() for v in hv(m, "connection"))
            if cl == x["keep"]: return "answer %d: connection header does not match keep-alive" % (i + 1)
        if x["st"] == 200 and not x["head"]:
            w, g = want_view(x), got_view(m["body"].decode("latin1"))
            if g is None: return "answer %d is not the handler's" % (i + 1)
            for k in w:
                if w[k] != g[k]: return "request %d: %s is %r, specified %r" % (i + 1, k, str(g[k])[:300], str(w[k])[:300])
    if extra and e != "bad": return "%d answers more than specified (%s)" % (len(extra), [m["status"] for m in extra])
    if e == "bad" and extra and not (len(extra) == 1 and extra[0]["status"] == 400):
        return "malformed bytes are answered with %s" % [m["status"] for m in extra]
    return None


def _worker(args):
    wid, exe, conf, cases, threads = args
    tmp = tempfile.mkdtemp(prefix="fitw_")
    bad, done, todo, crashes = [], 0, list(range(len(cases))), 0
    while todo:
        sock = os.path.join(tmp, "s%d" % crashes)
        srv = Server(exe, [sock + conf], cwd=tmp)
        res, slow = {}, []

        def one(i):
            if not srv.alive() or len(slow) > 12: return
            c = cases[i]
            data = bytes(c["b"])
            try: cn = Conn(sock)
            except OSError: return
            try:
                at = 0
                for cut in c.get("cuts", []) + [len(data)]:
                    if cut > at: cn.send(data[at:cut]); at = cut
                # the side that ends first: the server if the last request says so
                cn.end()
                cn.drain()
            finally: cn.close()
            if cn.timeout: slow.append(i)
            res[i] = (cn.raw, cn.timeout)
        parallel(0, one, todo, threads)
        alive = srv.alive()
        rc, err = srv.stop()
        for i, (raw, to) in res.items():
            done += 1
            try: why = judge(cases[i], parse_messages(raw, [x["head"] for x in cases[i]["a"]]), to)
            except Bad as x: why = "not HTTP: %s" % x
            if why: bad.append(dict(why=why, bytes=bytes(cases[i]["b"]).decode("latin1"), cuts=cases[i].get("cuts", []), ending=cases[i]["e"], received=raw[:1500].decode("latin1")))
        left = [i for i in todo if i not in res]
        if rc != 0 or not alive:
            crashes += 1
            bad.append(dict(why="the server process died: rc=%s %s" % (rc, err[-1500:]), bytes="; ".join(bytes(cases[i]["b"]).decode("latin1")[:300] for i in left[:3])))
            if crashes > 2: break
            todo = left
            continue
        if any(e.startswith("LEAKED") for e in srv.exc): bad.append(dict(why="an exception left the io_context: %s" % [e for e in srv.exc if e.startswith("LEAKED")][0]))
        break
    shutil.rmtree(tmp, ignore_errors=True)
    return bad, done


def run_wire(ck, exe, cases, conf="", tag="", threads=6, procs=8, key=None):
    t = time.time()
    procs = max(1, min(procs, (len(cases) + 7) // 8))
    parts = [(w, exe, conf, cases[w::procs], threads) for w in range(procs)]
    with mp.get_context("fork").Pool(procs) as pool: res = pool.map(_worker, parts)
    total = 0
    for bad, done in res:
        total += done
        for b in bad: ck.violation("wire " + tag, b)
    for c in cases: ck.seen(bytes(c["b"]))
    ck.traces += total; ck.steps += total
    ck.note("%s: %d byte streams replayed in %.1fs" % (tag, total, time.time() - t))
    if total < len(cases) and not ck.violations: raise RuntimeError("only %d of %d streams replayed" % (total, len(cases)))
