"""String helpers: all short strings over chosen alphabets against the
specification; every pair of bytes for the comparison laws."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *
import itertools


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("strings")
    al = "aAbZ[@1 "
    oth = [bytes(x) for n in range(4 if T else 3) for x in itertools.product(al.encode(), repeat=n)]
    oth += [b"content-type", b"Content-Type", b"CONTENT-TYPE", b"content-typf", b"content_type", b"content-typ"]
    delims = ["{44}", "{59}", "{44, 59}", "{}", "{32}", "{44, 97}"]
    dhex = [b",", b";", b",;", b"", b" ", b"a,"]
    base = dict(Mode='"x"', Others="<< >>", Delims="<< >>")
    jobs = [("cmp", dict(base, **gen(al, 3, ["content-type", "Content-Length"], 1, edit_alphabet="-_aZC`@[{"), Mode='"cmp"', Others="<<" + ", ".join(tla_seq(o) if o else "<< >>" for o in oth) + ">>")),
            ("trim", dict(base, **gen(b" \t\na\x85b", 6 if T else 5, ["  hello \v\f\r world \t"], 1, edit_alphabet=b" \xa0\0x"), Mode='"trim"')),
            ("split", dict(base, **gen(", ;a", 7 if T else 6, ["key0=value0; key1=value1& key2", "a,,b,;c, ,"], 1, edit_alphabet=";, x\t"), Mode='"split"', Delims="<<" + ", ".join(delims) + ">>"))]
    futs = [(m, ck.tlc_async("StringsMC", init="InitG", next="NextG", consts=c, workers=3, tag=m,
                             invariants=["EmitInv", "OrderLaws", "Transitive", "TrimLaws", "SplitLaws"])) for m, c in jobs]
    exe = exe_f.result()
    for mode, f in futs:
        recs, _ = f.result()
        if mode == "cmp":
            lines = []
            for k in range(0, len(recs), 200): lines.append("\n".join(["others " + " ".join(hx(o) for o in oth)] + ["cmp " + hx(r["s"]) for r in recs[k:k + 200]]))
            rc, o, err = ck.run(exe, lines)
            o = [x for x in o if x != "ok"]
            if rc or len(o) != len(recs):
                ck.violation("cmp", dict(case="string comparison", observed="rc=%d %s" % (rc, summarize(err))))
            for r, x in zip(recs, o):
                ck.seen(("cmp", tuple(r["s"])))
                w = "".join("<=>"[v + 1] for v in r["r"])
                ck.steps += len(w)
                if w != x:
                    k = next((i for i in range(min(len(w), len(x))) if w[i] != x[i]), 0)
                    ck.violation("cmp", dict(lhs=bytes(r["s"]).decode("latin1"), rhs=oth[k].decode("latin1"), expected=w[k], observed=x[k:k + 1]))
        elif mode == "trim":
            for r, x in zip(recs, ck.run_cases(exe, recs, lambda r: "trim " + hx(r["s"]))):
                if x is None: continue
                ck.steps += 1; ck.seen(("trim", tuple(r["s"])))
                ck.expect("trim", bytes(r["s"]).decode("latin1"), " ".join(hx(r[k]) for k in ("l", "r", "t", "ql", "qr", "qt")), x)
        else:
            for r, x in zip(recs, ck.run_cases(exe, recs, lambda r: "split %s %s" % (hx(r["s"]), " ".join(map(hx, dhex))))):
                if x is None: continue
                ck.steps += 1; ck.seen(("split", tuple(r["s"])))
                ck.expect("split", bytes(r["s"]).decode("latin1"), "".join("".join(hx(k) + "," for k in d) + ";" for d in r["r"]), x)
        ck.traces += len(recs)
        ck.sample(dict(mode=mode, string=bytes(recs[-1]["s"]).decode("latin1")))
    # every pair of single bytes: equality is ASCII case folding; the order is
    # antisymmetric, agrees with equality, is transitive, and is the ASCII
    # order for ASCII
    allb = [bytes([i]) for i in range(256)]
    rc, o, err = ck.run(exe, ["others " + " ".join(hx(x) for x in allb)] + ["cmp " + hx(x) for x in allb])
    if rc or len(o) != 257:
        ck.violation("bytes", dict(case="all pairs of bytes", observed="rc=%d %s" % (rc, summarize(err))))
    else:
        m = o[1:]
        low = lambda i: i + 32 if 65 <= i <= 90 else i
        for i in range(256):
            for j in range(256):
                ck.steps += 1
                if m[i][j] not in "<=>" or (m[i][j] == "=") != (low(i) == low(j)) or \
                        (i < 128 and j < 128 and m[i][j] != "<=>"[(low(i) > low(j)) - (low(i) < low(j)) + 1]):
                    ck.violation("bytes", dict(lhs=i, rhs=j, observed=m[i][j]))
        rank = [sum(c == ">" for c in m[i]) for i in range(256)]
        for i in range(256):
            for j in range(256):
                if (rank[i] < rank[j]) != (m[i][j] == "<"): ck.violation("bytes", dict(what="order is not transitive", lhs=i, rhs=j))
    # fixed strings of every pair of lengths up to 6
    fx = [(bytes(ck.rng.choice(b"ab\0\xff") for _ in range(a)), bytes(ck.rng.choice(b"cd\0\x80") for _ in range(b))) for a in range(7) for b in range(7) for _ in range(4)]
    for (a, b), x in zip(fx, ck.run_cases(exe, fx, lambda q: "fix %s %s" % (hx(q[0]), hx(q[1])))):
        if x is None: continue
        ck.steps += 1; ck.seen(("fix", a, b))
        ck.expect("fixed_string", [hx(a), hx(b)], "%s %d %s %s %s" % (hx(a + b), len(a + b), hx(a + b), hx(a), hx(b)), x)
    ck.extra["rule"] = "all strings over the alphabets up to length 3 (cmp, all pairs with %d strings), %d (trim), %d (split); all 65536 pairs of bytes" % (len(oth), 6 if T else 5, 7 if T else 6)


main("K05", run)
