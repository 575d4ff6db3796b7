"""from_string: every text of an alphabet and every edit of the boundary texts,
with the value or error the specification gives it."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *


def run(ck):
    exe_f = ck.build_async("fromstr")
    T = ck.thorough
    ints = []
    for b in (8, 16, 32, 64):
        for v in (2 ** b - 1, 2 ** b, 2 ** (b - 1) - 1, 2 ** (b - 1), 2 ** (b - 1) + 1, 10 ** len(str(2 ** b)) - 1):
            ints += [str(v), "-" + str(v), "000" + str(v)]
    ints += ["0" * 40, "0" * 40 + "1", "9" * 60, "-" + "0" * 30, "0x10", "1e3", "1'000", "1,000", "1 "]
    floats = ["3.4028235e38", "1.7976931348623157e308", "1e400", "1e-400", "1e-4000", "1e39", "1e-46", "1e5000", "1e-5000",
              "0e9999", "0.1", "0.10", "-0.25", "1.5e2", "1.5E-2", "1.5e+2", "00012.500", ".5", "5.", ".", "-.", "e5", "1e", "1e+",
              "inf", "nan", "-inf", "infinity", "0x1p3", "1.0f", "123456", "123456789012345", "123456789012345678",
              "99999.9", "0.000001", "1e37", "1e307", "1e-36", "-123.456e-7", "1e99999999999", "1e-99999999999", "0.0000000000000000000001e20"]
    bools = ["1", "t", "true", "y", "yes", "0", "f", "false", "n", "no", "TRUE", "FaLsE", "YES", "nO"]
    jobs = [("int", gen("-+01258 9x.", 5 if T else 4, ints, 1, edit_alphabet="-+019 x.\0")),
            ("float", gen("-+015.e x", 6 if T else 5, floats, 1, edit_alphabet="-+05.eE \0f")),
            ("bool", gen("tTyn01f ", 4 if T else 3, bools, 2 if T else 1, edit_alphabet="tTrRuUeEyYsSfFaAlLnNoO01 \0\xb4"))]
    futs = [(m, ck.tlc_async("FromStringMC", init="InitG", next="NextG", consts=dict(g, Mode='"%s"' % m), workers=3,
                             invariants=["EmitInv", "Widening", "Signs", "Strict"], tag=m)) for m, g in jobs]
    exe = exe_f.result()
    names = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
    for mode, f in futs:
        recs, _ = f.result()
        out = ck.run_cases(exe, recs, lambda r: "%s %s" % (mode, hx(r["s"])))
        ck.traces += len(recs)
        if mode == "bool":
            for r, o in zip(recs, out):
                if o is None: continue
                ck.steps += 1; ck.seen((mode, tuple(r["s"])))
                w = "v%d" % r["r"]["d"][0] if r["r"]["k"] == "v" else r["r"]["k"]
                ck.expect("bool", dict(text=bytes(r["s"]).decode("latin1")), w, o)
            continue
        for r, o in zip(recs, out):
            if o is None: continue
            ck.seen((mode, tuple(r["s"])))
            text = bytes(r["s"]).decode("latin1")
            got = o.split()
            if len(got) < len(r["r"]):
                ck.violation(mode, dict(text=text, observed=o)); continue
            if mode == "int": pairs = list(zip(names, r["r"], got)) + list(zip(["long long", "unsigned long long", "long", "unsigned"], [r["r"][i] for i in (6, 7, 6, 5)], got[8:]))
            else: pairs = list(zip(["float", "double", "long double"], r["r"], got))
            for name, w, g in pairs:
                ck.steps += 1
                if w["k"] == "?": continue
                if w["k"] == "x": ok = g in ("i", "r"); want = "i or r"
                elif w["k"] in "ir": ok = g == w["k"]; want = w["k"]
                elif mode == "int":
                    want = "v" + ("-" if w["neg"] else "") + "".join(map(str, w["d"])); ok = g == want
                else:
                    want = "v%s%s e%d" % ("-" if w["neg"] else "", "".join(map(str, w["m"])), w["p10"])
                    m = re.fullmatch(r"v(-?)([\d.]+)e([-+]\d+)", g)
                    ok = False
                    if m:
                        d = m.group(2).replace(".", "").rstrip("0") or "0"
                        if w["m"] == [0]: ok = d == "0"; want = "v0"
                        else: ok = d == "".join(map(str, w["m"])) and int(m.group(3)) == w["p10"] and bool(m.group(1)) == w["neg"]
                if not ok: ck.violation(mode, dict(type=name, text=text, expected=want, observed=g))
        ck.sample(dict(mode=mode, text=bytes(recs[-1]["s"]).decode("latin1"), spec=recs[-1]["r"], observed=out[-1]))
    strs = [bytes(ck.rng.randrange(256) for _ in range(ck.rng.randrange(0, 40))) for _ in range(500)] + [b"", b"\0", b" a "]
    for s, o in zip(strs, ck.run_cases(exe, strs, lambda s: "str " + hx(s))):
        if o is None: continue
        ck.steps += 1
        ck.expect("string", hx(s), hx(s) + " " + hx(s), o)
    ck.extra["rule"] = "all texts over the alphabets up to the length, plus every single edit of the boundary texts of 8..64 bits and of the float texts"


main("K04", run)
