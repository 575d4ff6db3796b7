"""Route resolution: every route table of the RouterMC pool, in many
registration orders and optimize modes, replayed in router; random tables
judged by TLC (PathsTrace)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from routing import *


def run(ck):
    exe_f = ck.build_async("paths", boost=True, opt="-O1")
    recs = tables(ck, 5 if ck.thorough else 4)
    exe = exe_f.result()
    rng = ck.rng
    cases = []
    for r in recs:
        tab = list(r["tab"])
        perms = list(itertools.permutations(tab))
        if len(perms) > 6: perms = rng.sample(perms, 6 if ck.thorough else 4)
        for perm in perms:
            routes = [(POOL[i - 1][0], POOL[i - 1][1].encode()) for i in perm]
            cases.append((rng.choice("012"), routes, perm, r))
    out = ck.run_cases(exe, cases, lambda c: rline(c[0], c[1], FREQS))
    for (opt, routes, perm, r), o in zip(cases, out):
        if o is None: continue
        try:
            res, fs = parse_router_out(o)
            got = [perm[i - 1] if 0 < i <= len(perm) else i for i, _ in fs]
        except ValueError:
            ck.violation("replay", dict(case=str((opt, routes)), observed=o)); continue
        ck.steps += len(got); ck.seen((opt, tuple(perm)))
        for k, (w, g) in enumerate(zip(r["out"], got)):
            if w != g:
                ck.violation("replay", dict(optimize=opt, routes=str(routes), request=REQS[k],
                    expected=POOL[w - 1] if w else "not found", observed=POOL[g - 1] if g > 0 else g))
        if len(got) != len(r["out"]): ck.violation("replay", dict(case=str(routes), observed=o))
    ck.traces += len(cases)
    ck.sample(dict(routes=str(cases[-1][1]), requests=REQS[:6], spec=recs[-1]["out"][:6]))
    # random tables
    sets = random_sets(ck, 12000 if ck.thorough else 2000)
    out = ck.run_cases(exe, sets, lambda s: rline(*s))
    tr, idx = [], []
    for k, (s, o) in enumerate(zip(sets, out)):
        if o is None: continue
        ck.steps += len(s[2]); ck.seen(k)
        try:
            rec = to_record(s, o)
        except (ValueError, IndexError):
            ck.violation("trace", dict(case=str(s), observed=o)); continue
        for f in rec["finds"]: f["ps"] = []                 # R03's matter
        rec["routes"] = [dict(m=x["m"], p=x["p"], res="any") for x in rec["routes"]]   # R02's matter
        tr.append(rec); idx.append(k)
    for b in ck.validate("RoutesTrace", tr, chunk=50):
        ck.violation("trace", dict(optimize=sets[idx[b]][0], routes=str(sets[idx[b]][1]), finds=str(sets[idx[b]][2]), observed=out[idx[b]]))
    ck.sample(dict(trace=str(sets[0])))
    ck.extra["rule"] = "tables: all subsets of a pool of %d overlapping routes; x orders x optimize modes x %d requests; random tables up to 13 routes, 30 requests each" % (len(POOL), len(REQS))


main("R01", run)
