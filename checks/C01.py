"""Decompression: every cutting, ending and damage of small encodings from the
specification, replayed at real byte positions of many encodings; random
chunkings, bit flips and nested codings; the middleware.  TLC judges the runs."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

CODECS = ["deflate", "gzip", "brotli"]
JUNK = b"\x00\xfe trailing junk \x03\x00"


def cl(l): return ",".join(map(str, l)) or "."


def run(ck):
    T = ck.thorough; rng = ck.rng
    exe_f = ck.build_async("codec", boost=True)
    futs = [(g, ck.tlc_async("CodecMC", consts=dict(Good=g, Extra=x, Empties="TRUE" if e else "FALSE"), invariants=["Sane"], workers=2, tag="good=%d" % g))
            for g, x, e in ((4, 2, True), (1, 1, True), (2, 1, True)) + (((6, 2, True),) if T else ())]
    exe = exe_f.result()
    scen = {g: f.result()[0] for g, f in futs}
    cases = []      # (line, record-without-observation, expected terminal or None)
    bodies = ["t:0:1", "a:1:1", "t:100:1", "r:300:2", "a:65535:1", "a:65536:1", "a:65537:1", "s:131072:3", "m:30000:4", "r:70000:5"]
    if T: bodies += ["a:131072:1", "a:131073:2", "t:200000:1", "m:400000:2", "r:262144:9", "s:1000000:5"]
    encs = [(c, b, lv) for c in CODECS for b in bodies for lv in ((1, 6, 9) if T else (6,))]
    sizes = dict(zip(encs, map(int, ck.run_cases(exe, encs, lambda e: "enc %s %s %d" % e))))
    for (c, b, lv), L in sizes.items():
        for g, recs in scen.items():
            if L < g or (g in (1, 2) and (L > 4 if g == 2 else L != 1)): continue
            sel = recs
            if (L > 2000 or int(b.split(":")[1]) > 2000) and not T: sel = rng.sample(recs, min(len(recs), 250))
            for r in sel:
                inner = sorted(rng.sample(range(1, L), g - 1)) if rng.random() < .5 else None
                if inner is None:    # near the ends
                    k = (g - 1) // 2
                    inner = list(range(1, k + 1)) + list(range(L - (g - 1 - k), L))
                pos = [0] + inner + [L] + [L + (len(JUNK) * j) // 2 for j in (1, 2)]
                ch, at = [], 0
                for n in r["chunks"]: ch.append(pos[at + n] - pos[at]); at += n
                D = pos[at]; j = JUNK[:max(0, D - L)]
                dmg = "t:%d" % D if D < L else "j:%s" % hx(j) if j else "."
                fl = rng.choice(["-", "m", "p"])
                cases.append(("I %s %s %d %s %s %s %s" % (c, b, lv, dmg, cl(ch), r["fin"], fl),
                              dict(kind="dec", good=L, bad=False, chunks=ch, fin=r["fin"]), r["st"]))
    # random chunkings, other sizes, damage
    for _ in range(20000 if T else 4000):
        c = rng.choice(CODECS); lv = rng.choice([0, 1, 3, 6, 9]) if c != "brotli" else rng.choice([0, 1, 4, 6, 9])
        n = rng.choice([0, 1, 2, 5, rng.randrange(400), rng.randrange(5000), 65534 + rng.randrange(5), rng.randrange(140000)])
        b = "%s:%d:%d" % (rng.choice("artms"), n, rng.randrange(100))
        m = rng.random(); dmg = "."
        if m < .35: dmg = "f:%d" % rng.randrange(10 ** 9)
        elif m < .45: dmg = "f:%d;f:%d" % (rng.randrange(200), rng.randrange(200))
        elif m < .6: dmg = "t:%d" % rng.randrange(0, 200)
        elif m < .7: dmg = "j:%s" % hx(bytes(rng.choice([[0], [255], [0, 0, 0], [0x78, 0x9c], [0x1f]])))
        elif m < .75: dmg = "g:%s" % hx(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 40))))
        ch = []
        k = rng.choice([0, 1, 3, 20, 200]); w = rng.choice([1, 1, 3, 50, 1000, 70000])
        for _ in range(k): ch.append(rng.choice([0, 1, rng.randrange(w + 1)]))
        fin = "src" if rng.random() < .1 else "eof"
        cases.append(("I %s %s %d %s %s %s %s" % (c, b, lv, dmg, cl(ch), fin, rng.choice(["-", "m", "p"])), dict(kind="dec", fin=fin, want=ch), None))
    out = ck.run_cases(exe, cases, lambda c: c[0], timeout=600)
    trs, idx = [], []
    for i, ((line, rec, st), o) in enumerate(zip(cases, out)):
        if o is None: continue
        f = o.split(" "); ck.seen(line); ck.steps += 1
        if len(f) != 11: ck.violation("decoder", dict(case=line, observed=o[:400])); continue
        whole, n, verdict, plain, nch, d, e, end, got, pre, stays = f
        n = int(n); r = dict(rec)
        r["bad"] = verdict == "bad"
        if "want" in r:
            ch, at = [], 0
            for x in r.pop("want"): x = min(x, n - at); ch.append(x); at += x
            if at < n: ch.append(n - at)
            r["chunks"] = ch
            # the complete encoding the text starts with, as the reference decoder has it
            r["good"] = n if verdict == "ok" else n + 1 if verdict == "trunc" else n - 1 if verdict == "trail" else 0
            if verdict == "trail" and "j:" not in line:   # the end moved somewhere inside: where is not known
                if end not in ("X", "S") or (end == "S" and r["fin"] != "src"): ck.violation("decoder", dict(case=line, observed=o, why="text with trailing bytes"))
                continue
            if verdict == "trail": r["good"] = int(whole)
        elif st != {"E": "end", "S": "src", "X": "err", "H": "hang"}.get(end):
            ck.violation("decoder", dict(case=line, observed=o, specified=st)); continue
        r.update(plain=int(plain), out=int(got), prefix=pre == "1", stays=stays == "1", datas=int(d), empties=int(e),
                 end={"E": "end", "S": "src", "X": "err"}.get(end, "hang"))
        trs.append(r); idx.append(i)
    for b in ck.validate("CodecTrace", trs, chunk=300):
        ck.violation("decoder", dict(case=cases[idx[b]][0], record=trs[b], observed=out[idx[b]]))
    ck.sample(dict(case=cases[0][0], observed=out[0]))
    middleware(ck, exe)
    ck.extra["rule"] = "all cuttings (with empty chunks), truncations, trailing bytes and source failures of a 4-unit encoding at real positions of %d encodings; random chunkings, bit flips, garbage; content-encoding lists of up to 3 codings" % len(encs)


def middleware(ck, exe):
    rng = ck.rng
    cs = []
    names = {"deflate": "deflate", "gzip": "gzip", "brotli": "brotli", "br": "brotli", "identity": "identity", "x-unknown": "identity", "gzi": "gzip", "gzipp": "gzip", "zstd": "identity"}
    recs, _ = ck.tlc("MwMC", consts=dict(Tokens="{%s}" % ", ".join('"%s"' % n for n in names), MaxLen=3 if ck.thorough else 2), invariants=["Sane"], tag="codings")
    if not ck.thorough:
        more, _ = ck.tlc("MwMC", consts=dict(Tokens='{"gzip", "br", "deflate", "identity"}', MaxLen=3), invariants=["Sane"], tag="three codings")
        recs += [r for r in more if len(r["l"]) == 3]
    for r in recs:
        l = r["l"]
        for body in ("t:300:1", "r:70000:2", "t:0:1"):
            for cut in (".", "1,2,3,0,5", "100"):
                for fin in ("eof", "src"):
                    if rng.random() < (.6 if len(l) == 2 else .9) and len(l) > 1 and len(cs) > 400: continue
                    cased = [rng.choice([x, x.upper(), x.capitalize()]) for x in l]
                    values = [rng.choice([",", ", ", " ,", " , "]).join(cased)] if l else []
                    if len(l) > 1 and rng.random() < .3: values = [cased[0], rng.choice([",", ", "]).join(cased[1:])]   # two header lines
                    cs.append((l, body, cut, fin, values, r["v"]))
    def enc(c):
        l, body, cut, fin, values, v = c
        return "M %s %s %s %s %s" % (",".join(hx(v.encode()) for v in values) or ".", ",".join(names[x] for x in l) or ".", body, cut, fin)
    out = ck.run_cases(exe, cs, enc, timeout=300)
    for c, o in zip(cs, out):
        if o is None: continue
        l, body, cut, fin, values, v = c
        ck.steps += 1; ck.seen(enc(c))
        f = o.split(" ")
        if len(f) != 8: ck.violation("middleware", dict(codings=values, case=enc(c), observed=o[:400])); continue
        st, hdl, runs, hdr, end, n, same, plain = f
        want_hdr = b"X-Before=1|X-After=2|"
        if not v["run"]: ok = st == str(v["status"]) and runs == "0"
        elif fin == "src": ok = st == str(v["status"]) and runs == "1" and hdl == "1" and end in ("src",) and same == "1"
        else: ok = st == str(v["status"]) and runs == "1" and hdl == "1" and end == "end" and same == "1" and unhx(hdr) == want_hdr
        if not ok: ck.violation("middleware", dict(codings=values, case=enc(c), observed=o))
    ck.traces += len(cs)


main("C01", run)
