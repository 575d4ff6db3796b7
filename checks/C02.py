"""Compression: every sequence of chunk sizes around the buffer sizes, for each
coding and kind of body; the reference decoder reads the output, TLC judges."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

CODECS = ["deflate", "gzip", "brotli"]


def cl(l): return ",".join(map(str, l)) or "."


def run(ck):
    T = ck.thorough; rng = ck.rng
    exe_f = ck.build_async("codec", boost=True)
    recs, _ = ck.tlc("EncodeMC", consts=dict(Sizes="{0, 1, 700, 65536, 200001}" if not T else "{0, 1, 700, 65535, 65536, 65537, 200001}", MaxLen=3 if T else 2), invariants=["Sane"], workers=4, tag="chunk sizes")
    exe = exe_f.result()
    cases = []
    for r in recs:
        n = sum(r["chunks"])
        for c in CODECS:
            for k in "artms":
                if not T and n > 100000 and rng.random() < .5: continue
                cases.append((c, k, r["chunks"], r["fin"], r["st"]))
    for _ in range(6000 if T else 1200):
        w = rng.choice([1, 10, 300, 5000, 100000, 400000]); m = rng.choice([0, 1, 2, 5, 50])
        ch = [rng.choice([0, 1, rng.randrange(w + 1)]) for _ in range(m)]
        while sum(ch) > 1500000: ch.pop()
        cases.append((rng.choice(CODECS), rng.choice("artms"), ch, "src" if rng.random() < .1 else "eof", None))
    lines = ["D %s %s:%d:%d %s %s %s" % (c, k, sum(ch), rng.randrange(50), cl(ch), fin, rng.choice(["-", "m", "p"])) for c, k, ch, fin, _ in cases]
    out = ck.run_cases(exe, lines, lambda l: l, timeout=700)
    trs, idx = [], []
    for i, ((c, k, ch, fin, st), o) in enumerate(zip(cases, out)):
        if o is None: continue
        ck.steps += 1; ck.seen(lines[i])
        f = o.split(" ")
        if len(f) != 10: ck.violation("encoder", dict(case=lines[i], observed=o[:400])); continue
        plain, n, d, e, end, outn, verdict, dec, pre, stays = f
        r = dict(kind="enc", good=0, bad=False, chunks=ch, fin=fin, plain=int(plain), enc=verdict, dec=int(dec), prefix=pre == "1", stays=stays == "1",
                 datas=int(d), empties=int(e), end={"E": "end", "S": "src", "X": "err"}.get(end, "hang"))
        if st is not None and st != r["end"]: ck.violation("encoder", dict(case=lines[i], observed=o, specified=st)); continue
        trs.append(r); idx.append(i)
    for b in ck.validate("CodecTrace", trs, chunk=200):
        ck.violation("encoder", dict(case=lines[idx[b]], observed=out[idx[b]]))
    ck.sample(dict(case=lines[0], observed=out[0]))
    # stacked: through several encoders and back again
    rl = []
    for _ in range(1500 if T else 250):
        w = rng.choice([1, 100, 70000, 300000]); ch = [rng.choice([0, 1, rng.randrange(w + 1)]) for _ in range(rng.choice([0, 1, 3, 20]))]
        while sum(ch) > 600000: ch.pop()
        rl.append("R %s %s:%d:%d %s %s" % (",".join(rng.choice(CODECS) for _ in range(rng.choice([1, 1, 2, 3]))), rng.choice("artms"), sum(ch), rng.randrange(50), cl(ch), rng.choice(["-", "m", "p"])))
    tr2, ix2 = [], []
    for l, o in zip(rl, ck.run_cases(exe, rl, lambda l: l, timeout=700)):
        if o is None: continue
        ck.steps += 1; ck.seen(l); f = o.split(" ")
        if len(f) != 8: ck.violation("stacked", dict(case=l, observed=o[:400])); continue
        tr2.append(dict(kind="rt", plain=int(f[0]), end={"E": "end", "S": "src", "X": "err"}.get(f[4], "hang"), out=int(f[5]), prefix=f[6] == "1", stays=f[7] == "1")); ix2.append((l, o))
    for b in ck.validate("CodecTrace", tr2, chunk=200): ck.violation("stacked", dict(case=ix2[b][0], observed=ix2[b][1]))
    ck.extra["rule"] = "all sequences of up to %d chunks of sizes around 0, 1 and the 64 KiB buffers, 5 kinds of body, 3 codings, with and without a source error; random sequences; stacks of up to three codings and back" % (3 if T else 2)


main("C02", run)
