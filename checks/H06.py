"""Base64: spec automata model-checked against RFC 4648 meaning; every automaton
transition replayed in the real code; random long splits validated by TLC."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def run(ck):
    exe_f = ck.build_async("base64")
    enc_bytes = "{0, 3, 15, 16, 63, 64, 165, 240, 251, 255}" if not ck.thorough else "0..15 \\cup {16, 63, 64, 128, 165, 240, 251, 255}"
    recs, _ = ck.tlc("Base64MC", consts=dict(EncBytes=enc_bytes, MaxEnc=4 if not ck.thorough else 4, MaxDec=5, Mode='"x"'),
                     invariants=["EncoderMeans", "RoundTrip", "DecoderMeans", "EmitInv"], properties=["Sticky"])
    exe = exe_f.result()
    # --- replay of every transition of the specification automata
    cases = []
    for i, r in enumerate(recs):
        b = bytes(r["i"])
        typ = "cub"[i % 3]
        k = (i * 7919) % (len(b) + 1)
        chunks = [hx(b[:k]), hx(b[k:])]
        single = str(i & 1)
        if r["d"] == "dec":
            want = "%d%d%d %s" % (r["err"], r["done"], not r["done"], hx(r["out"]))
            cases.append((["D", r["a"], typ, single] + chunks, want))
        else:
            for pad, w in (("1", r["p"]), ("0", r["n"])) + ((("d", r["p"]),) if i % 5 == 0 else ()):
                cases.append((["E", r["a"], typ, single, pad] + chunks, hx(w)))
    out = ck.run_cases(exe, cases, lambda c: " ".join(c[0]))
    for (c, w), o in zip(cases, out):
        if o is None: continue
        ck.steps += 1; ck.seen(tuple(c))
        ck.expect("replay", c, w, o)
    ck.traces += len(cases)
    ck.sample(dict(harness=cases[len(cases) // 2][0], spec=cases[len(cases) // 2][1]))
    # --- random longer inputs with random splits, judged by TLC
    n = 2000 if not ck.thorough else 30000
    rng = ck.rng
    std = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    url = std[:-2] + b"-_"
    reqs = []
    for i in range(n):
        a = rng.choice("su")
        if rng.random() < .5:
            b = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40)))
            reqs.append(("E", a, rng.choice("cub"), str(rng.randrange(2)), rng.choice("01"), b))
        else:
            al = url if a == "u" else std
            b = bytes(rng.choice(al) for _ in range(rng.randrange(0, 40)))
            b += b"=" * rng.choice([0, 0, 0, 1, 2, 2, 3])
            if rng.random() < .3 and b:
                k = rng.randrange(len(b)); b = b[:k] + bytes([rng.randrange(256)]) + b[k + 1:]
            reqs.append(("D", a, rng.choice("cub"), str(rng.randrange(2)), None, b))
    def enc(r):
        b = r[5]; ks = sorted(rng.randrange(len(b) + 1) for _ in range(rng.randrange(0, 5)))
        parts = [b[i:j] for i, j in zip([0] + ks, ks + [len(b)])]
        return " ".join([x for x in r[:5] if x is not None] + [hx(p) for p in parts])
    lines = [enc(r) for r in reqs]
    out = ck.run_cases(exe, lines, lambda l: l)
    tr = []; idx = []
    for k, (r, o) in enumerate(zip(reqs, out)):
        if o is None: continue
        ck.steps += 1; ck.seen(lines[k])
        f = o.split()
        try:
            if r[0] == "E":
                tr.append(dict(d="enc", a=r[1], i=list(r[5]), pad=r[4] == "1", out=list(unhx(f[0])))); idx.append(k)
            else:
                tr.append(dict(d="dec", a=r[1], i=list(r[5]), err=f[0][0] == "1", done=f[0][1] == "1", thrown=f[0][2] == "1", out=list(unhx(f[1])))); idx.append(k)
        except (ValueError, IndexError):
            ck.violation("trace", dict(case=lines[k], observed=o))
    for b in ck.validate("Base64Trace", tr):
        ck.violation("trace", dict(case=lines[idx[b]], observed=out[idx[b]]))
    ck.sample(dict(trace=tr[0]))
    ck.extra["rule"] = "replay: every transition (phase x remembered sextet x byte) of both decoder automata, encoder inputs over a byte subset; random: up to 40 bytes, random splits, 30% of texts damaged"


main("H06", run)
