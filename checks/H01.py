"""range::parse: every value over the alphabet and every edit of boundary
values, for several total lengths, with the intervals the specification gives."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *

U = 2 ** 64


def show(r):
    if not r["ok"]: return "no"
    num = lambda d: "".join(map(str, d))
    return hx(r["unit"]) + "".join(",%s+%s" % (num(i["o"]), num(i["n"])) for i in r["items"])


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("headers")
    digits = lambda n: "<<" + ",".join(str(n)) + ">>"
    small = [0, 1, 5, 10]
    big = [10, 1000, U - 1, U - 2, 2 ** 63]
    seeds = []
    ns = [0, 1, 5, 9, 10, 999, 1000, 1001, 2 ** 63 - 1, 2 ** 63, U - 2, U - 1, U, 10 ** 20, 10 ** 25]
    for a in ns:
        seeds += ["bytes=%d-" % a, "bytes=-%d" % a, "bytes=0-1,%d-" % a]
        for b in ns: seeds.append("bytes=%d-%d" % (a, b))
    edits = ["bytes=0-99, 200-399, 700-", "bytes=-500", "bytes=0-", "bytes=18446744073709551615-", "bytes=18446744073709551606-18446744073709551615"]
    jobs = [("small", small, gen("-,015 +=", 6 if T else 5, prefix="b=")),
            ("free", small, gen("b=-,0 5", 7 if T else 5)),
            ("big", big, gen("0", 0, seeds, 0)),
            ("edits", big, gen("0", 0, edits, 2 if T else 1, edit_alphabet="0=-,+ 9x\t"))]
    futs = [(m, tot, ck.tlc_async("HeadersMC", init="InitG", next="NextG", tag=m, workers=3, invariants=["EmitInv", "RangeLaws"],
                                  consts=dict(g, Mode='"range"', Totals="<<" + ",".join(map(digits, tot)) + ">>"))) for m, tot, g in jobs]
    exe = exe_f.result()
    for m, tot, f in futs:
        recs, _ = f.result()
        out = ck.run_cases(exe, recs, lambda r: "range %s %s" % (hx(r["s"]), " ".join(map(str, tot))))
        ck.traces += len(recs)
        ok = 0
        for r, o in zip(recs, out):
            if o is None: continue
            ck.seen((m, tuple(r["s"])))
            got = o.split(";")[:-1]
            text = bytes(r["s"]).decode("latin1")
            if len(got) != len(tot):
                ck.violation("range", dict(value=text, observed=o)); continue
            for t, w, l, g in zip(tot, r["r"], r["l"], got):
                ck.steps += 1
                want = [show(w), show(l)]
                ok += w["ok"]
                if r["s"][:1] == [61] and g == "no": continue      # an empty unit may be refused
                if g not in want: ck.violation("range", dict(value=text, total=t, expected=want, observed=g))
        ck.extra["accepted_" + m] = ok
        ck.sample(dict(value=bytes(recs[-1]["s"]).decode("latin1"), observed=out[-1]))
    ck.extra["rule"] = "all values up to the length over the alphabets x total lengths %s; all a-b, a-, -n of 15 boundary numbers x total lengths %s; all edits of 5 values" % (small, big)


main("H01", run)
