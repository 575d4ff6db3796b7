"""Log levels and filters."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *
import itertools

NAMES = ["TRACE", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL", "UNKNOWN"]


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("logtext")
    lists = [x for n in range(4) for x in itertools.product(range(7), repeat=n) if n < 3 or (T or sum(x) % 4 == 0)]
    envs = ["", "trace", "DEBUG", "Info", "warning", "eRRor", "FATAL", "off", "warn", "6", "info ", "UNKNOWN"]
    seq = dict(EnvTexts="<<%s>>" % ", ".join(tla_seq(e) if e else "<< >>" for e in envs), Lists="<<%s>>" % ", ".join("<<%s>>" % ", ".join(map(str, x)) if x else "<< >>" for x in lists))
    short = dict(seq, Lists="<<<< >>, <<6>>, <<0>>, <<5, 2>>, <<3, 3>>, <<6, 1, 4>>>>", MaxSteps=4 if T else 3)
    sf = [ck.tlc_async("LevelMC", init="InitF", next="NextF", consts=c, workers=4, tag=t, invariants=["EmitInv", "NeverOff", "UpperSet", "Nested", "RoundTrip"])
          for t, c in [("one", dict(seq, MaxSteps=1)), ("seq", short)]]
    allcase = ["".join(x) for n in NAMES[:6] for x in itertools.product(*[(ch.lower(), ch) for ch in n]) if T or len(n) < 7]
    jobs = [("cases", gen("a", 0, allcase, 0)),
            ("edits", gen("a", 0, [n.lower() for n in NAMES] + NAMES + ["off", "none"], 2 if T else 1, edit_alphabet=bytes(range(256)) if not T else "aeDG \0@`i0")),
            ("all", gen("infoOFE ", 5 if T else 4))]
    tf = [(m, ck.tlc_async("LevelTextMC", init="InitG", next="NextG", consts=g, workers=2, tag=m, invariants=["EmitInv", "OnlyOwnLength"])) for m, g in jobs]
    exe = exe_f.result()
    for i, a in enumerate(NAMES):
        ck.steps += 2
        o = ck.run_cases(exe, [i], lambda i: "text %d" % i)[0]
        ck.expect("to_string", i, hx(a.encode()), o)
        o = ck.run_cases(exe, [i], lambda i: "fmt %d" % i)[0]
        ck.expect("fmt", i, hx(a.encode() * 2), o)
    pairs = [(a, b) for a in range(7) for b in range(7)]
    for (a, b), o in zip(pairs, ck.run_cases(exe, pairs, lambda p: "order %d %d" % p)):
        ck.steps += 1
        ck.expect("order", [NAMES[a], NAMES[b]], "<=>"[(a > b) - (a < b) + 1], o)
    for m, f in tf:
        recs, _ = f.result(); ck.traces += len(recs)
        for r, o in zip(recs, ck.run_cases(exe, recs, lambda r: "level " + hx(r["s"]))):
            if o is None: continue
            ck.steps += 1; ck.seen(("t", tuple(r["s"])))
            ck.expect("to_level", bytes(r["s"]).decode("latin1"), str(r["r"]), o)
    def enc(h):
        t = {"at_least": "a", "all": "*", "list": "l", "unset": "e!", "env": "e"}
        return "seq " + " ".join(t[x["a"]] + (hx(x["x"]) if x["a"] == "env" else "".join(map(str, x["x"]))) for x in h)
    for f in sf:
        recs, _ = f.result(); ck.traces += len(recs)
        for r, o in zip(recs, ck.run_cases(exe, recs, enc)):
            if o is None: continue
            ck.steps += len(r); ck.seen(enc(r))
            ck.expect("filter", enc(r), " ".join("".join("01"[b] for b in x["r"]) for x in r), o)
        ck.sample(dict(history=enc(recs[-1]), observed=o))
    ck.extra["rule"] = "every assignment history of a filter up to %d steps from %d sources, %d level lists, level names in every case with all single edits, all texts over 8 characters up to length %d" % (short["MaxSteps"], 6 + 7 + 2 + len(envs), len(lists), 5 if T else 4)


main("L01", run)
