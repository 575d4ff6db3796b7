"""Duplicate routes: after every table of the pool (in several orders), every
pool route is tried; the outcome of each registration and the unchanged
routing of the table are compared with the specification."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from routing import *


def run(ck):
    exe_f = ck.build_async("paths", boost=True, opt="-O1")
    recs = tables(ck, 5 if ck.thorough else 4)
    exe = exe_f.result()
    rng = ck.rng
    cases = []
    for r in recs:
        perm = list(r["tab"]); rng.shuffle(perm)
        dups = [i + 1 for i in range(len(POOL)) if r["dup"][i]]
        rng.shuffle(dups)
        seq = perm + dups                      # registering duplicates changes nothing
        new = [i + 1 for i in range(len(POOL)) if not r["dup"][i]]
        routes = [(POOL[i - 1][0], POOL[i - 1][1].encode()) for i in seq]
        want = ["ok"] * len(perm) + ["dup"] * len(dups)
        cases.append((rng.choice("012"), routes, seq, want, r["out"]))
        for i in (new if ck.thorough else rng.sample(new, min(2, len(new)))):
            routes = [(POOL[j - 1][0], POOL[j - 1][1].encode()) for j in perm + [i] + dups[:3] + [i]]
            cases.append((rng.choice("012"), routes, perm + [i] + dups[:3] + [i], ["ok"] * (len(perm) + 1) + ["dup"] * (len(dups[:3]) + 1), None))
    out = ck.run_cases(exe, cases, lambda c: rline(c[0], c[1], FREQS if c[4] is not None else []))
    for (opt, routes, seq, want, outc), o in zip(cases, out):
        if o is None: continue
        try:
            res, fs = parse_router_out(o)
        except ValueError:
            ck.violation("replay", dict(case=str((opt, routes)), observed=o)); continue
        ck.steps += len(res); ck.seen((opt, tuple(seq)))
        ck.expect("replay", dict(optimize=opt, routes=str(routes)), want, res)
        if outc is not None:
            got = [seq[i - 1] if 0 < i <= len(seq) else i for i, _ in fs]
            if got != outc:
                ck.violation("replay-unchanged", dict(optimize=opt, routes=str(routes), expected=outc, observed=got))
    ck.traces += len(cases)
    ck.sample(dict(routes=str(cases[-1][1]), spec=cases[-1][3]))
    sets = random_sets(ck, 12000 if ck.thorough else 2500, nroutes=(2, 16), nfinds=8)
    out = ck.run_cases(exe, sets, lambda s: rline(*s))
    tr, idx = [], []
    for k, (s, o) in enumerate(zip(sets, out)):
        if o is None: continue
        ck.steps += len(s[1]); ck.seen(k)
        try:
            rec = to_record(s, o)
        except (ValueError, IndexError):
            ck.violation("trace", dict(case=str(s), observed=o)); continue
        rec["finds"] = []                                   # R01's matter
        tr.append(rec); idx.append(k)
    for b in ck.validate("RoutesTrace", tr, chunk=50):
        ck.violation("trace", dict(optimize=sets[idx[b]][0], routes=str(sets[idx[b]][1]), observed=out[idx[b]]))
    ck.sample(dict(trace=str(sets[0][1])))
    ck.extra["rule"] = "every table of the pool followed by all its duplicates and by a new route registered twice; random registration sequences up to 15"


main("R02", run)
