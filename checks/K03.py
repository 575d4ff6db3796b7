"""dynamic_buffer: every layout x operation of the refined FIFO model is
replayed; random large histories are judged by TLC."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

HUGE = 1999999999


def num(n): return "H" if n == HUGE else str(n)


def enc(kind, limit, start, ops):
    return "%s %d %d %s" % (kind, limit, start, " ".join("%s %s %s" % (o["o"], num(o["n"]), num(o["m"])) for o in ops))


def parse(line):
    res = []
    for part in line.split(";")[:-1]:
        t, size, first, last, bad, rel, rf = map(int, part.split())
        res.append(dict(t=bool(t), size=size, first=first, last=last, bad=bad, rel=rel, rfirst=rf))
    return res


def run(ck):
    exe_f = ck.build_async("fifo", extra=["-D_GLIBCXX_SANITIZE_VECTOR=1"], boost=True, cxx="g++-13")
    lim = "{1, 2, 3, 5, 7, %d}" % HUGE if ck.thorough else "{2, 3, 5, %d}" % HUGE
    recs, _ = ck.tlc("FifoMC", consts=dict(Limits=lim, Starts="{0, 3}", MaxN=6 if ck.thorough else 5, Huge=HUGE),
                     invariants=["Refines"], constraint="Bounded", view="Layout")
    exe = exe_f.result()
    # every transition, on one of the containers; the expected result of the
    # last operation is compared, the earlier ones were transitions themselves
    kinds = ["b", "s", "u"]
    cases = [(kinds[i % 3], r) for i, r in enumerate(recs)]
    out = ck.run_cases(exe, cases, lambda c: enc(c[0], c[1]["limit"], c[1]["start"], c[1]["ops"]))
    for (k, r), o in zip(cases, out):
        if o is None: continue
        ck.steps += 1
        line = enc(k, r["limit"], r["start"], r["ops"])
        ck.seen((r["limit"], r["start"], tuple((p["o"], p["n"], p["m"]) for p in r["ops"])))
        try: obs = parse(o)[-1]
        except (ValueError, IndexError):
            ck.violation("replay", dict(case=line, observed=o)); continue
        size = r["hi"] - r["lo"]
        want = dict(t=r["t"], size=size, first=r["lo"] if size else 0, last=r["hi"] - 1 if size else 0, bad=0)
        got = {x: obs[x] for x in want}
        ck.expect("replay", line, want, got)
    ck.traces += len(cases)
    ck.sample(dict(history=enc(*[cases[-1][0], recs[-1]["limit"], recs[-1]["start"], recs[-1]["ops"]]), observed=out[-1]))
    # long random histories
    rng = ck.rng
    n = 6000 if ck.thorough else 800
    lines, meta = [], []
    for _ in range(n):
        limit = rng.choice([7, 64, 1000, 4096, 1000000])
        start = rng.choice([0, 0, 10, 300]) if limit == 1000000 else 0
        ops = []
        for _ in range(rng.randrange(5, 40)):
            o = rng.choice("wwwwccccrpv")
            big = min(limit, 5000)
            amt = lambda: rng.choice([0, 1, rng.randrange(0, big + 2), rng.randrange(0, big // 3 + 2), rng.randrange(0, big // 3 + 2), HUGE])
            a, b = amt(), amt()
            if o == "w" and a == HUGE and rng.random() < .8: a = 3
            ops.append(dict(o=o, n=a if o in "wcp" else 0, m=b if o == "w" else 0))
        k = rng.choice(kinds)
        lines.append(enc(k, limit, start, ops)); meta.append((limit, start, ops))
    out = ck.run_cases(exe, lines, lambda l: l)
    tr, idx = [], []
    for i, ((limit, start, ops), o) in enumerate(zip(meta, out)):
        if o is None: continue
        ck.steps += len(ops); ck.seen(lines[i])
        try:
            obs = parse(o)
            if len(obs) != len(ops): raise ValueError
            tr.append(dict(limit=limit, start=start, ops=ops, obs=obs)); idx.append(i)
        except ValueError:
            ck.violation("trace", dict(case=lines[i], observed=o))
    for b in ck.validate("FifoTrace", tr, consts=dict(Huge=HUGE), chunk=50):
        ck.violation("trace", dict(case=lines[idx[b]], observed=out[idx[b]]))
    ck.extra["rule"] = "replay: every operation in every layout (limits %s, up to 16 bytes); random: 5..40 operations with amounts up to 5000 and the maximal size_t" % lim


main("K03", run)
