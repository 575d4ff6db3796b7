"""Versions, methods, statuses and what they are called."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("http", boost=True)
    f = ck.tlc_async("HttpMC", consts=dict(MaxNum=70000 if T else 999, Statuses="0..9999" if T else "0..1100"),
                     invariants=["EmitInv", "RoundTrip", "ClassByDigit"])
    exe = exe_f.result()
    out, _ = f.result()
    ck.traces += len(out)
    def enc(x): return "srv1 %s %s" % (x["a"], x["p"]) if x["k"] == "srv" else "%s %s" % (x["k"], x["a"])
    def want(x):
        w = " ".join(map(str, x["want"]))
        if x["k"] == "mk": w = "%s %s" % (x["want"][0], w)
        return w
    for x, o in zip(out, ck.run_cases(exe, out, enc)):
        if o is None: continue
        ck.steps += 1; ck.seen(enc(x))
        got = o
        w = want(x)
        if x["k"] in ("srv", "mk"):
            seen, _, ans = o.partition(" | ")
            got = seen
            if x["want"][1] == "none":       # no route has this method
                w = "404"
                got = ans.split(" ")[0] if "unserved" in seen else o
        ck.expect(x["k"], enc(x), w, got)
    ck.sample(dict(case=enc(out[-1]), want=want(out[-1])))
    ck.extra["rule"] = "all versions, wire numbers up to %d, statuses up to %d, every response factory, every method against every kind of route" % (70000 if T else 999, 9999 if T else 1100)


main("H04", run)
