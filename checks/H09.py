"""HTTP dates."""
import sys, os, datetime
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

DAY = lambda y, m=1, d=1: datetime.date(y, m, d).toordinal() - 719163


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("dates")
    spans = [(1678, 1880), (1883, 2075), (2076, 2261)] if T else [(1678, 1682), (1883, 1905), (1960, 2050), (2090, 2110), (2255, 2261)]
    jobs = [ck.tlc_async("DateMC", consts=dict(FirstDay=DAY(a), LastDay=DAY(b, 12, 31), FirstYear=a, FirstWd=(DAY(a) + 4) % 7, OneDay="FALSE"), invariants=["EmitInv", "Agree", "Weekday"], workers=1, tag="%d-%d" % (a, b)) for a, b in spans]
    jobs.append(ck.tlc_async("DateMC", consts=dict(FirstDay=DAY(2024), LastDay=DAY(2024), FirstYear=2024, FirstWd=(DAY(2024) + 4) % 7, OneDay="TRUE"), invariants=["EmitInv"], workers=1, tag="seconds"))
    jobs.append(ck.tlc_async("DateMC", consts=dict(FirstDay=DAY(1906), LastDay=DAY(1906), FirstYear=1906, FirstWd=(DAY(1906) + 4) % 7, OneDay="TRUE"), invariants=["EmitInv"], workers=1, tag="seconds before 1970"))
    exe = exe_f.result()
    times = []
    for f in jobs:
        recs = sorted(f.result()[0], key=lambda r: (r["day"], r["sec"]))
        cases = []
        for i, r in enumerate(recs):
            ns = [0, 1, 999999999, 500000000, 999999][i % 5] if r["sec"] else 0
            cases.append(("%s %d %d %d" % ("d" if DAY(1883) <= r["day"] else "u", r["day"], r["sec"], ns), hx(bytes(r["t"]))))
            if i % 40 == 0 and DAY(1883) <= r["day"]: times.append((r["day"], r["sec"], ns))
        outs = ck.run_cases(exe, cases, lambda c: c[0])
        for c, o in zip(cases, outs):
            ck.traces += 1; ck.steps += 1
            if o is not None: ck.expect("text", c[0], c[1], o)
        ck.seen((len(cases), cases[0][0])); ck.sample(dict(time=cases[0][0], text=unhx(cases[0][1]).decode()))
    # order: as of the times, to the nanosecond
    pairs = []
    for a in ck.rng.sample(times, min(len(times), 4000 if T else 800)):
        near = [a, (a[0], a[1], (a[2] + 1) % 10 ** 9), (a[0], (a[1] + 1) % 86400, a[2]), (a[0] + 1, a[1], a[2]), (a[0] - 1, 86399, 999999999)]
        for b in near + ck.rng.sample(times, 3): pairs.append((a, b))
    outs = ck.run_cases(exe, pairs, lambda p: "c %d %d %d %d %d %d" % (p[0] + p[1]))
    for (a, b), o in zip(pairs, outs):
        ck.steps += 1; ck.seen((a, b))
        w = "<" if a < b else ">" if a > b else "="
        if o is not None: ck.expect("order", dict(a=a, b=b), w * 2, o)
    ck.extra["rule"] = "every day of the years %s with a second each, every second of two days, fractions of seconds, from the system and the file clock; order of near and distant pairs" % spans


main("H09", run)
