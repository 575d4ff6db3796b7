"""MIME types: parser, parts, comparisons, parameters as a map, constants."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *
import itertools


def show(src, r):
    """the observation the parse gives; duplicated names leave the value open"""
    if not r["ok"]: return "no"
    low = lambda b: bytes(b).lower()
    names = {}
    for n, v in r["p"]: names.setdefault(low(n), []).append(bytes(v))
    return (" ".join([hx(src), hx(r["e"]), hx(r["t"]), hx(r["s"]), hx(r["x"]) if r["x"] else "none"]), names)


def matches(src, r, o):
    w = show(src, r)
    if w == "no": return o == "no"
    f = o.split()
    if " ".join(f[:5]) != w[0] or len(f) != 6 + len(w[1]) or f[5] != str(len(w[1])): return False
    seen = set()
    for x in f[6:]:
        if "=" not in x: return False
        k, v = x.split("=")
        k = unhx(k)
        if k.lower() not in w[1] or unhx(v) not in w[1][k.lower()] or k.lower() in seen: return False
        seen.add(k.lower())
    return True


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("mime")
    seeds = ["text/plain", "image/svg+xml", "text/plain; charset=utf-8", "application/vnd.api+json;q=1", "a/b; c=d; C=e",
             "text/plain;charset=utf-8; author=fitoria", "x/y+z;a=b"]
    structured = []
    for ty, su, sx, ps in itertools.product(["text", "X1", "-t", "a.b", "", "a_b^c", "t@"], ["plain", "vnd.ms-excel", "-p", "", "x-y!#$&", "3gpp"],
                                            ["", "+xml", "+", "+a+b", "+-x"], ["", ";", ";a=b", "; a=b ; c=d", ";a", ";a=", ";=b", ";a=b=c", "; q=0.5", ";a=b;"]):
        structured.append("%s/%s%s%s" % (ty, su, sx, ps))
    allb = bytes(range(256))
    jobs = [("all", gen("aZ/+;= -.", 6 if T else 5)),
            ("bytes", gen("a", 0, seeds[:4] if not T else seeds, 1, edit_alphabet=allb)),
            ("edits", gen("a", 0, seeds, 2 if T else 1, edit_alphabet="/+;= .-a@")),
            ("structured", gen("a", 0, structured, 0))]
    futs = [(m, ck.tlc_async("MimeMC", init="InitG", next="NextG", consts=g, workers=3, tag=m, invariants=["EmitInv", "Spells"])) for m, g in jobs]
    pf = ck.tlc_async("MimeParamsMC", init="InitP", next="NextP", consts=dict(Names="{1, 2, 3}", Values="{1, 2, 3}"), workers=2)
    tf = ck.tlc_async("MimeTable", init="InitX", next="NextX", invariants=["EmitInv"], workers=1)
    exe = exe_f.result()
    for m, f in futs:
        recs, _ = f.result()
        out = ck.run_cases(exe, recs, lambda r: "parse " + hx(r["s"]))
        ck.traces += len(recs)
        acc = 0
        for r, o in zip(recs, out):
            if o is None: continue
            ck.steps += 1; ck.seen(("p", tuple(r["s"])))
            acc += r["r"]["ok"]
            if not (matches(r["s"], r["r"], o) or matches(r["s"], r["l"], o)):
                ck.violation("parse", dict(text=bytes(r["s"]).decode("latin1"), expected=show(r["s"], r["r"]), observed=o))
        ck.extra["accepted_" + m] = acc
        ck.sample(dict(text=bytes(recs[-1]["s"]).decode("latin1"), observed=out[-1]))
    recs, _ = pf.result()
    ck.traces += len(recs)
    enc = lambda r: "params %s %s %d %d %d" % (" ".join(map(str, r["before"])), r["o"], r["n"], r["sp"], r["v"])
    for r, o in zip(recs, ck.run_cases(exe, recs, enc)):
        if o is None: continue
        ck.steps += 1; ck.seen(enc(r))
        ck.expect("params", enc(r), "%d %s" % (r["r"], " ".join(map(str, r["after"]))), o)
    recs, _ = tf.result()
    cases = []
    for r in recs:
        if r["k"] == "const": cases.append(("const", str(r["i"]), hx(r["r"].encode())))
        else:
            w = "no" if r["r"] == "no" else hx(r["r"].encode())
            for s in (r["i"], r["i"].upper(), r["i"].swapcase()): cases.append((r["k"], hx(s.encode()), w))
    for c, o in zip(cases, ck.run_cases(exe, cases, lambda c: c[0] + " " + c[1])):
        if o is None: continue
        ck.steps += 1; ck.seen(c)
        ck.expect(c[0], c[1] if c[0] == "const" else unhx(c[1]).decode(), c[2], o)
    # comparisons of whole types and of names: the order of the strings helper
    ss = ["text/plain", "TEXT/PLAIN", "text/plain; a=b", "text/html", "Text/Html+xml", "a/b", "A/c", "a/B", "b", "B", "", "a/b+c", "a-b/c", "a_b/c", "Z/a", "[", "@"]
    pairs = [(a, b) for a in ss for b in ss]
    valid = {s for s in ss if "/" in s}
    for (a, b), o in zip(pairs, ck.run_cases(exe, pairs, lambda p: "cmp %s %s" % (hx(p[0].encode()), hx(p[1].encode())))):
        if o is None: continue
        ck.steps += 1
        x, y = a.lower(), b.lower()
        c = "<=>"[(x > y) - (x < y) + 1]; e = "01"[x == y]
        ck.expect("compare", [a, b], e + e + c * 3 + e + e + "01"[x < y] + (e + c + e + c if a in valid and b in valid else "----") + " " + hx(x.encode()), o)
    ck.extra["rule"] = "all texts over 9 characters up to length %d, all single byte edits of %d types, %d structured types, every params_view operation in every reachable map, every extension and constant" % (6 if T else 5, len(seeds), len(structured))


main("H05", run)
