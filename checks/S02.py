"""Bytes of one request's body are never taken for another request."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from session import *

# bodies that look like requests ("evil" by default), left unread in every way
CL, CH = dict(fr="cl", sz=[200]), dict(fr="ch", sz=[150, 50])
U = [
    kind("no-cl", rd="no", bk="sized", **CL), kind("no-ch", rd="no", bk="sized", **CH),
    kind("one-cl", rd="one", bk="sized", **CL), kind("one-ch", rd="one", bk="chunked", **CH),
    kind("all-cl", rd="all", bk="null", **CL), kind("all-ch", rd="all", bk="null", **CH),
    kind("none-cl", tgt="none", **CL), kind("none-ch", tgt="none", **CH),
    kind("bad-cl", tgt="bad", **CL), kind("bad-ch", tgt="bad", **CH),
    kind("deny-cl", tgt="deny", **CL), kind("deny-ch", tgt="deny", **CH),
    kind("str-cl", tgt="str", **CL), kind("str-ch", tgt="str", **CH),
    kind("safe-cl", tgt="safe", act="throw", **CL), kind("safe-ch", tgt="safe", act="throw", rd="one", **CH),
    kind("throw-cl", act="throw", **CL),
    kind("head-cl", head=True, bk="sized", **CL),
    kind("204-ch", st=204, bk="null", **CH),
    kind("exp-cl", exp=True, bk="sized", **CL), kind("exp-ch", exp=True, rd="all", **CH),
    kind("close-cl", conn="close", bk="sized", **CL), kind("old-cl", v=10, conn="ka", bk="sized", **CL),
    kind("broken-cl", bk="broken", **CL),
]
E0 = [kind("empty-cl", fr="cl", sz=[0], bk="sized"), kind("empty-ch", fr="ch", sz=[], bk="sized")]
E0[1].update(n=0)
BIG = [kind("big-no", fr="cl", sz=[100000, 40000], bk="sized"), kind("big-one", fr="cl", sz=[65536, 1], rd="one", bk="sized"), kind("big-ch", fr="ch", sz=[66000, 70000], bk="sized"),
       kind("big-ch1", fr="ch", sz=[65536, 65535], rd="one", bk="sized"), kind("big-none", tgt="none", fr="cl", sz=[140000]), kind("big-all", fr="cl", sz=[65536, 65536], rd="all", bk="sized")]
F = [kind("get", bk="sized"), kind("post", fr="cl", sz=[9, 40], rd="all", bk="sized"), kind("chunks", fr="ch", sz=[5, 6], rd="all", bk="chunked")]
LIM = 1000
O = [kind("o-" + a["k"], **{**{x: v for x, v in a.items() if x != "k"}, "over": True, "limit": LIM, "sz": [1500] if a["fr"] == "cl" else [700, 700]}) for a in U if a["hs"] == "ok" and not a["k"].startswith(("204", "broken", "throw"))]
I = [kind("in-no", fr="cl", sz=[LIM], bk="sized"), kind("in-all", fr="ch", sz=[600, 400], rd="all", bk="sized")]


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True)
    g = lambda *a: ck.pool.submit(generate, ck, *a)
    jobs = [("unread", "", U + E0 + F, g(product(U + E0, F), 1, 3 if T else 2, False, "every unread body, then a request")),
            ("chains", "", U + E0 + F, g(product(U if T else U[:16] + U[17:], U if T else U[:4] + U[6:8], F[:1]), 1, 1, False, "two unread bodies, then a request, pipelined")),
            ("cut", "", U + E0 + F, g(product(U, F[:1]), 1, 2, True, "the client ends anywhere")),
            ("big", "", BIG + F, g(product(BIG, F[:2]), 1, 3, T, "bodies larger than the read buffer")),
            ("limit", ",body=%d" % LIM, O + I + F, g(product(O + I, F[:2]), 1, 3 if T else 2, False, "bodies over the limit"))]
    exe = exe_f.result()
    for tag, conf, ks, f in jobs:
        cases = f.result()
        run_all(ck, exe, cases, ks, conf=conf, tag=tag)
        ck.sample(dict(script=cases[-1][0], history=cases[-1][1], outcomes=cases[-1][2]))
    ck.extra["rule"] = "every combination of framing x route x read behaviour x answer with a body that spells requests, followed by 1..2 requests, in all splits at unit boundaries; the client ending anywhere; bodies over the read buffer and over the limit"


main("S02", run)
