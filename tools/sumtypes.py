"""Shared by K01 (optional) and K02 (expected)."""
from vlib import *


def slot(s): return dict(h=s[0], n=int(s[1:]))


def txt(s): return s["h"] + str(s["n"])


def run_check(ck, harness, mc, trace, combos, mutators_obs, consts, invariants, starts, kindrec, optset):
    exe_f = ck.build_async(harness)
    recs, _ = ck.tlc(mc, consts=consts, invariants=invariants)
    exe = exe_f.result()
    cases = []
    bykind = {}
    for r in recs:
        bykind.setdefault(tuple(r["k"]) if isinstance(r["k"], list) else r["k"], []).append(r)
    for name, kind in combos:
        for r in bykind[kind]:
            op = r["op"]
            cases.append(("%s %s %s %s %d %d 0" % (name, txt(r["x"]), txt(r["y"]), op["o"], op["c"], op["a"]),
                          "%s %s %s%d " % (txt(r["nx"]), txt(r["ny"]), r["r"]["k"], r["r"]["n"])))
    out = ck.run_cases(exe, cases, lambda c: c[0])
    for (c, w), o in zip(cases, out):
        if o is None: continue
        ck.steps += 1; ck.seen(c)
        ck.expect("replay", c, w, o)
    ck.traces += len(cases)
    ck.sample(dict(step=cases[len(cases) // 3][0], spec=cases[len(cases) // 3][1]))
    # random histories with throwing element operations, judged by TLC
    rng = ck.rng
    n = 20000 if ck.thorough else 3000
    lines, meta = [], []
    for _ in range(n):
        name, kind = rng.choice(combos)
        ops = []
        rs = bykind[kind]
        for _ in range(rng.randrange(3, 12)):
            r = rng.choice(rs)["op"]
            while r["o"] in ("der", "err"): r = rng.choice(rs)["op"]      # have preconditions
            ops.append((r["o"], r["c"], r["a"], rng.choice([0, 0, 1, 1, 2, 3])))
        x, y = rng.choice(starts(kind)), rng.choice(starts(kind))
        lines.append("%s %s %s %s" % (name, x, y, " ".join("%s %d %d %d" % o for o in ops)))
        meta.append((name, kind, x, y, ops))
    out = ck.run_cases(exe, lines, lambda l: l)
    tr, idx = [], []
    thrown = 0
    for k, ((name, kind, x, y, ops), o) in enumerate(zip(meta, out)):
        if o is None: continue
        ck.steps += len(ops); ck.seen(lines[k])
        f = o.split()
        try:
            if len(f) != 3 * len(ops): raise ValueError
            s = [dict(x=slot(x), y=slot(y), r=dict(k="-", n=0))]
            for i in range(len(ops)):
                q = f[3 * i + 2]
                s.append(dict(x=slot(f[3 * i]), y=slot(f[3 * i + 1]), r=dict(k=q[0], n=int(q[1:]))))
                thrown += q[0] == "X"
            tr.append(dict(kindrec(kind), s=s, ops=[dict(o=a, c=b, a=d, k=e) for a, b, d, e in ops])); idx.append(k)
        except (ValueError, IndexError):
            ck.violation("trace", dict(case=lines[k], observed=o))
    for b in ck.validate(trace, tr):
        ck.violation("trace", dict(case=lines[idx[b]], observed=out[idx[b]]))
    ck.sample(dict(history=lines[0], observed=out[0]))
    ck.extra["throwing_steps"] = thrown
    ck.extra["rule"] = "replay: every transition of the two-object model x %d instantiations; random histories of 3..11 operations with armed element exceptions" % len(combos)
