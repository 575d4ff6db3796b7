"""Every response is framed so that a client reads exactly the body the handler set."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from session import *

STATUSES = [200, 201, 202, 203, 204, 205, 206, 207, 208, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 426, 428, 429, 431, 444, 451, 499,
            500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511, 599]
SIZED = [[0], [1], [100], [65535], [65536], [65537], [200000]]
STREAM = [[], [0], [1], [0, 5, 0, 7], [65536, 65537], [1] * 40, [200000, 0, 1], [4096] * 5]
BROKEN = [["E"], [0, "E"], [3, "E"], [70000, "E", 5], [5, 0, "E", 5]]
HDRS = ["A=1", "A=1,a=2,B=3,A=4", "X-Empty=,Y=2", "Content-Type=text/plain,Set-Cookie=a,Set-Cookie=b,set-cookie=c", "Connection=close", "Connection=keep-alive", "Content-Length=3", "X-Long=" + "v" * 6000, "ETag=\"x\",Date=now"]
REQ = [("", {}), ("H", dict(head=True)), ("c", dict(conn="close")), ("0", dict(v=10)), ("0k", dict(v=10, conn="ka")), ("0H", dict(v=10, head=True, conn="ka"))]


def bodies(T):
    r = [("null", "null", "null", []), ("build", "null", "build", []), ("v10", "null", "v10", [])]
    r += [("sized%d" % p[0], "sized", "sized", p) for p in SIZED] + [("text%d" % p[0], "sized", "text", p) for p in SIZED[:4]]
    r += [("stream%d" % i, "sized", "stream", p) for i, p in enumerate(STREAM)]
    r += [("chunked%d" % i, "chunked", "chunked", p) for i, p in enumerate(STREAM)]
    r += [("brk%d" % i, "broken", "chunked", p) for i, p in enumerate(BROKEN)]
    r += [("brks%d" % i, "broken", "stream", p) for i, p in enumerate(BROKEN)]
    r += [("thr%d" % i, "throws", k, [x if x != "E" else "T" for x in p]) for i, p in enumerate(BROKEN[:3]) for k in ("chunked",)]
    return r


def kinds(T):
    K = []
    for n, bk, bkind, plan in bodies(T):
        for rn, rq in REQ:
            if rq.get("v") == 10 and (bkind == "chunked"): continue          # chunked to HTTP/1.0: unspecified
            if rq.get("head") and bk in ("broken", "throws"): continue           # whether the stream is read at all is unspecified
            K.append(kind("%s-%s" % (n, rn), bk=bk, bkind=bkind, plan=plan, **rq))
    for st in STATUSES:
        for bk, plan in (("null", []), ("sized", [5]), ("chunked", [3, 4])):
            K.append(kind("st%d%s" % (st, bk), st=st, bk=bk, plan=plan))
            if T or st in (200, 204, 304, 404): K.append(kind("st%d%sH" % (st, bk), st=st, bk=bk, plan=plan, head=True))
    for i, h in enumerate(HDRS):
        for bk in ("null", "sized", "chunked"):
            for rn, rq in REQ[:3]: K.append(kind("h%d%s%s" % (i, bk, rn), bk=bk, xhdr=h, **rq))
    return K


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True)
    K = kinds(T)
    G = [kind("get", bk="sized"), kind("post", fr="cl", sz=[9], rd="all", bk="chunked", conn="close")]
    one_f = ck.pool.submit(generate, ck, product(K, G), 1, 1, False, "every answer, then another request")
    sub = [k for k in K if not k["k"].startswith(("st", "h"))]
    two_f = ck.pool.submit(generate, ck, product(sub if T else sub[::3], sub if T else sub[1::5], G[:1]), 1, 1, False, "two answers in a row")
    exe = exe_f.result()
    cases = one_f.result()
    run_all(ck, exe, cases, K + G, tag="answers")
    run_all(ck, exe, two_f.result(), K + G, tag="two answers")
    ck.sample(dict(script=cases[-1][0], history=cases[-1][1], outcomes=cases[-1][2]))
    ck.extra["rule"] = "%d answers: every status x body kind, every body kind x chunk plan x request form (HEAD, close, HTTP/1.0), failing and throwing streams, header lists; each followed by another request on the connection" % len(K)


main("S05", run)
