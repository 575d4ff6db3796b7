"""One response per request, in order, for every pipelining and segmentation;
connections end when they should and do not influence each other."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from session import *

K = [
    kind("get", rd="no", bk="sized"),
    kind("head", head=True, bk="sized"),
    kind("post", fr="cl", sz=[9, 40], rd="all", bk="sized"),
    kind("chunks", fr="ch", sz=[5, 6], rd="all", bk="chunked"),
    kind("unread", fr="cl", sz=[200], rd="no", bk="null"),
    kind("missing", tgt="none"),
    kind("close", conn="close", bk="sized"),
    kind("old", v=10, bk="sized"),
    kind("oldka", v=10, conn="ka", bk="sized"),
    kind("expect", exp=True, fr="cl", sz=[30], rd="all", bk="sized"),
]
L = [kind("slow", pre="sleep", bk="sized"), kind("big", bk="sized", plan=[300000]), kind("bigpost", fr="cl", sz=[70000, 70000], rd="all", bk="chunked", plan=[70000, 1, 70000])]


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True)
    ex = [kind("c" + k["k"], **{x: v for x, v in k.items() if x != "k"}) for k in K[:3]]
    jobs = [("pipelines", ck.pool.submit(generate, ck, seqs(K, 1, 3), 1, 1, False, "scripts of 1..3 requests, pipelined")),
            ("segments", ck.pool.submit(generate, ck, seqs(K if T else K[:6] + K[9:], 1, 2), 1, 3, False, "scripts of 1..2 requests, up to 3 segments")),
            ("large", ck.pool.submit(generate, ck, seqs(L + K[:1] + K[6:7], 1, 2), 1, 3, False, "large and slow")),
            ("two", ck.pool.submit(generate, ck, pairs([[K[0], K[2]], [K[3]], [L[0], K[0]], [K[6]]], [[K[2]], [K[4], K[0]], [K[9]], [K[5]]]), 2, 2, False, "two connections"))]
    if T:
        jobs.append(("deep", ck.pool.submit(generate, ck, seqs(K[:7], 3, 3), 1, 2, False, "3 requests, 2 segments")))
        jobs.append(("four", ck.pool.submit(generate, ck, seqs([K[0], K[2], K[4], K[5], K[6]], 4, 4), 1, 1, False, "4 requests, pipelined")))
    exe = exe_f.result()
    # every position of one cut through the bytes of a pipelined pair
    cutcases = []
    for tag, f in jobs:
        cases = f.result()
        run_all(ck, exe, cases, K + L, tag=tag)
        if tag == "pipelines":
            pick = [c for c in cases if c[0][0] in (["post", "chunks"], ["get", "head"], ["unread", "get"])]
            for c in pick:
                n = len(b"".join(b"".join(units({k["k"]: k for k in K}[x], "w0c00-0-0")[0]) for x in c[0][0]))
                for b in range(1, n + 6, 1 if T else 3): cutcases.append((c[0], c[1], c[2], Cut(b)))
        ck.sample(dict(script=cases[-1][0], history=cases[-1][1], outcomes=cases[-1][2]))
    run_all(ck, exe, cutcases, K + L, tag="byte cuts")
    ck.extra["rule"] = "all scripts of 1..3 requests over 10 kinds pipelined, all of 1..2 requests in every split into up to 3 segments at unit boundaries, every byte cut of three pipelines, all interleavings of the segments of two connections"


class Cut:
    def __init__(self, b): self.b = b
    def __call__(self, data): return [self.b] if self.b < len(data) else []


main("S01", run)
