"""Extractors: every argument kind alone over a wide pool of requests, and
drawn argument lists over every combination of good and bad sources
(spec/ExtractorsMC.tla).  Handlers with those signatures are generated,
compiled, served on a unix socket, and every answer and run count compared."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from extract import *


def run(ck):
    sigs, rets = signatures(ck)
    parts = [list(range(i, len(sigs), 7)) for i in range(7)] if not ck.thorough else [list(range(i, len(sigs), 14)) for i in range(14)]
    exes = []
    for n, p in enumerate(parts):
        src = os.path.join(ck.tmp, "extract%d.cpp" % n)
        open(src, "w").write(cxx(p, sigs, rets))
        exes.append(ck.build_async("extract%d" % n, srcs=[src], boost=True))
    q = lambda l: "<<" + ",".join(l) + ">>"
    consts = dict(Sigs=q(q('"%s"' % k for k in s) for s in sigs), Rets=q('"%s"' % r for r in rets), Vals="{" + ",".join(b(v) for v in VALS) + "}",
                  SVals="{" + ",".join(b(v) for v in SVALS) + "}", FormBodies=q(b(v) for v in FORMS),
                  JsonBodies=q('<<%s,"%s">>' % (b(t), j) for t, j in JSONS), Deep="TRUE")
    recs, _ = ck.tlc("ExtractorsMC", consts=consts, invariants=["Gate", "Alone", "Exact"], workers=4)
    recs.sort(key=lambda r: json.dumps(r))
    by = {}
    for r in recs: by.setdefault(r["s"], []).append(r)
    ck.note("%d requests for %d signatures" % (len(recs), len(by)))
    lim = 20000 if ck.thorough else 700
    cases = {n: [] for n in range(len(parts))}
    for s, l in sorted(by.items()):
        if len(l) > lim: l = ck.rng.sample(l, lim)
        cases[(s - 1) % len(parts)] += l
    for n, cs in cases.items():
        raws = [raw(c, sigs, ck.rng) for c in cs]
        out = ck.run_cases(exes[n].result(), list(zip(cs, raws)), lambda x: hx(x[1]), min_chunk=400)
        for c, r, o in zip(cs, raws, out):
            if o is None: continue
            ck.steps += 1; ck.seen((c["s"], r))
            try: got = observed(o)
            except (ValueError, IndexError): got = o
            w = expected(c, sigs)
            if got != w:
                ck.violation("extract", dict(signature=[CXX[k] for k in sigs[c["s"] - 1]], returns=rets[c["s"] - 1], request=repr(r), expected=w, observed=got))
        ck.traces += len(cs)
    ck.sample(dict(signature=sigs[-1], request=repr(raws[-1]), spec=expected(cs[-1], sigs)))


main("R07", run)
