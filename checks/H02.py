"""entity_tag and if_none_match against the grammar of RFC 9110."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *


def tag(t): return ("s:" if t["strong"] else "w:") + hx(t["v"])


def show(m):
    if not m["ok"]: return "no"
    return "any" if m["any"] else " ".join(["tags"] + [tag(t) for t in m["tags"]])


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("headers")
    allb = bytes(range(256))
    jobs = [("etag", gen(b'Ww/"a, \x7f\x80', 6 if T else 5, ['"abc"', 'W/"abc"', '""', 'W/""', '"a,b"'], 1, edit_alphabet=allb)),
            ("inm", gen('", aW/*', 7 if T else 5, ['"a", W/"b"', ' * ', '"a,b", "c"', 'W/"a,",W/"b"', '"a" , "b" ,"c"'], 2 if T else 1, edit_alphabet='", W/*;\t'))]
    futs = [(m, ck.tlc_async("HeadersMC", init="InitG", next="NextG", tag=m, workers=4, invariants=["EmitInv", "EtagLaws", "InmLaws"],
                             consts=dict(g, Mode='"%s"' % m, Totals="<< >>"))) for m, g in jobs]
    exe = exe_f.result()
    tags = []
    for m, f in futs:
        recs, _ = f.result()
        out = ck.run_cases(exe, recs, lambda r: "%s %s" % (m, hx(r["s"])))
        ck.traces += len(recs)
        acc = 0
        for r, o in zip(recs, out):
            if o is None: continue
            ck.steps += 1; ck.seen((m, tuple(r["s"])))
            text = bytes(r["s"]).decode("latin1")
            acc += r["r"]["ok"]
            if m == "etag":
                t = r["r"]
                if t["ok"] and len(tags) < 400: tags.append(t)
                ck.expect(m, text, "%s %s" % (tag(t), hx(r["s"])) if t["ok"] else "no", o)
            else:
                want = [show(r["r"]), show(r["l"])] if not (r["r"]["ok"] and r["r"]["any"]) else [show(r["r"])]
                if o not in want: ck.violation(m, dict(value=text, expected=want, observed=o))
        ck.extra["accepted_" + m] = acc
        ck.sample(dict(kind=m, value=bytes(recs[-1]["s"]).decode("latin1"), observed=out[-1]))
    # comparisons: strong looks at weakness, weak does not
    pairs = [(a, b) for a in tags[:60] for b in tags[:60]]
    for (a, b), o in zip(pairs, ck.run_cases(exe, pairs, lambda p: "cmp %s %s %s %s" % ("s" if p[0]["strong"] else "w", hx(p[0]["v"]), "s" if p[1]["strong"] else "w", hx(p[1]["v"])))):
        if o is None: continue
        ck.steps += 1
        weak = a["v"] == b["v"]; strong = weak and a["strong"] == b["strong"]
        txt = (b"" if a["strong"] else b"W/") + b'"' + bytes(a["v"]) + b'"'
        ck.expect("compare", [tag(a), tag(b)], "%d%d%d%d11 %s" % (strong, strong, weak, weak, hx(txt)), o)
    ck.extra["rule"] = "all values over the alphabets up to the length, all single-byte edits of 5 tags with all 256 bytes, all edits of 5 lists, all comparisons of 60 tags"


main("H02", run)
