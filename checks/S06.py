"""A failing handler, middleware or body stream affects only its own connection."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from session import *

BODY = dict(fr="cl", sz=[9, 40], rd="all")
POST = [("", {}), ("U", dict(fr="cl", sz=[200])), ("O", dict(fr="ch", sz=[5, 6], rd="one")), ("A", BODY), ("C", dict(fr="ch", sz=[50], rd="all", conn="close")), ("H", dict(head=True)), ("S", dict(pre="sleep"))]


def failing():
    K = []
    for rn, rq in POST:
        for tgt in ("do", "safe", "gate", "both"):
            for act in ("throw", "othrow"): K.append(kind("%s-%s%s" % (tgt, act, rn), tgt=tgt, act=act, **rq))
        for tgt in ("gate", "both"):
            for act in ("tbefore", "tafter"): K.append(kind("%s-%s%s" % (tgt, act, rn), tgt=tgt, act=act, **rq))
        K.append(kind("exp-error" + rn, tgt="exp", act="error", **rq))
        K.append(kind("exp-fine" + rn, tgt="exp", **rq))
        K.append(kind("exp-throw" + rn, tgt="exp", act="throw", **rq))
        if not rq.get("head"):
            for tgt in ("do", "safe", "both"):
                for i, p in enumerate((["T"], [3, "T"], [70000, "T"])): K.append(kind("%s-stream%d%s" % (tgt, i, rn), tgt=tgt, bk="throws", plan=p, **rq))
    return K


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True)
    F = failing()
    G = [kind("get", bk="sized"), kind("post", bk="sized", **BODY)]
    N = [kind("n-" + k["k"], **{x: v for x, v in k.items() if x != "k"}) for k in G] + [kind("n-slow", pre="sleep", bk="chunked"), kind("n-expect", exp=True, fr="cl", sz=[30], rd="all", bk="sized")]
    jobs = [("failures", ck.pool.submit(generate, ck, product(G, F, G), 1, 2, False, "a failure between two requests")),
            ("twice", ck.pool.submit(generate, ck, product(F, F[::3], G[:1]), 1, 1, False, "two failures")),
            ("neighbours", ck.pool.submit(generate, ck, pairs([[k] for k in (F if T else F[::2])], [[N[0], N[1]], [N[2], N[0]], [N[3]]]), 2, 2 if T else 1, False, "a failure and a neighbour")),
            ("cut", ck.pool.submit(generate, ck, product([k for k in F if k["fr"] != "none"], G[:1]), 1, 2, True, "a failure and a client that ends early"))]
    exe = exe_f.result()
    for tag, f in jobs:
        cases = f.result()
        if tag == "failures":
            # the default exception handler (it calls nothing that could be counted)
            some = [(s, h, [[[o, l, []] for o, l, x in c] for c in a]) for s, h, a in cases[::4]]
            run_all(ck, exe, some, F + G + N, conf=",quiet=1", tag="default exception handler")
        run_all(ck, exe, cases, F + G + N, tag=tag)
        ck.sample(dict(script=cases[-1][0], history=cases[-1][1], outcomes=cases[-1][2]))
    ck.extra["rule"] = "%d failures (route x failure kind x how the body is read) between, before and after other requests, next to a second connection, and with clients that end early; exception handler calls counted per request" % len(F)


main("S06", run)
