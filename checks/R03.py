"""Path parameters: path_matcher against Match on all short paths for a set of
patterns, random patterns x paths, and matcher/router agreement."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from routing import *

PATS = ["", "/", "/a", "/{a}", "/a/{b}", "/{a}/b", "/{a}/{b}", "/#a", "/a#b", "/a/#b", "/{a}/#b", "/{a}/b#c", "a#b",
        "#a", "/a.b", "/(a)", "/a*", "/a+", "/$", "/[a"[:1] + "a$b", "/{a-b}", "/{1}", "/{a.b}", "/{a%41}", "/%41", "/%2F{a}"[:4], "/{a}//b", "//", "/a/",
        "/{a}/", "/~!$&'()*+,;=:@", "/#a*", "/{a}/{b}/{c}", "/a{b"[:2] + "/{ab}/#ba"]


def run(ck):
    exe_f = ck.build_async("paths", boost=True, opt="-O1")
    L = 6 if ck.thorough else 5
    recs, _ = ck.tlc("MatchMC", consts=dict(Pats="<<" + ",".join(tlaseq(p.encode()) for p in PATS) + ">>",
                     Alphabet="{47, 97, 98, 46, 123}", MaxLen=L),
                     invariants=["Agree", "Reassemble", "EmitInv"])
    exe = exe_f.result()
    cases = []
    for r in recs:
        for k, m in enumerate(r["m"]):
            cases.append((PATS[k].encode(), bytes(r["path"]), "1" + pstxt(m["ps"]) if m["ok"] else "0"))
    out = ck.run_cases(exe, cases, lambda c: "M %s %s" % (hx(c[0]), hx(c[1])))
    for (p, x, w), o in zip(cases, out):
        if o is None: continue
        ck.steps += 1; ck.seen((p, x))
        ck.expect("replay", "pattern %r path %r" % (p, x), w, o)
    ck.traces += len(cases)
    ck.sample(dict(pattern=PATS[12], path=str(cases[-1][1])))
    rng = ck.rng
    # random patterns x paths
    req = []
    for _ in range(20000 if ck.thorough else 4000):
        p = rand_pattern(rng)
        x = rand_path(rng, [("get", p)])
        if rng.random() < .2 and x:
            k = rng.randrange(len(x)); x = x[:k] + bytes([rng.randrange(256)]) + x[k + 1:]
        req.append((p.encode(), x))
    out = ck.run_cases(exe, req, lambda c: "M %s %s" % (hx(c[0]), hx(c[1])))
    tr, idx = [], []
    for k, ((p, x), o) in enumerate(zip(req, out)):
        if o is None: continue
        ck.steps += 1; ck.seen((p, x))
        if o[:1] not in "01" or " " in o:
            ck.violation("trace", dict(pattern=str(p), path=str(x), observed=o)); continue
        ps = [y.split("=") for y in o.split(",")[1:]]
        tr.append(dict(t="match", p=list(p), path=list(x), ok=o[0] == "1", ps=[dict(n=list(unhx(a)), v=list(unhx(b))) for a, b in ps])); idx.append(k)
    for b in ck.validate("PathsTrace", tr):
        ck.violation("trace", dict(pattern=str(req[idx[b]][0]), path=str(req[idx[b]][1]), observed=out[idx[b]]))
    # parameters of the route the router selects
    sets = random_sets(ck, 4000 if ck.thorough else 800)
    out = ck.run_cases(exe, sets, lambda s: rline(*s))
    n = 0
    tr, idx = [], []
    for k, (s, o) in enumerate(zip(sets, out)):
        if o is None: continue
        try:
            rec = to_record(s, o)
        except (ValueError, IndexError):
            ck.violation("router", dict(case=str(s), observed=o)); continue
        for (m, x), f in zip(s[2], rec["finds"]):
            if f["id"] > 0:
                n += 1
                tr.append(dict(t="match", p=list(s[1][f["id"] - 1][1]), path=list(x), ok=f["ps"] != [dict(n=[], v=[33])], ps=f["ps"]))
                idx.append((s[1][f["id"] - 1], x, f))
    ck.steps += n
    for b in ck.validate("PathsTrace", tr, tag="parameters of the selected route"):
        ck.violation("router", dict(route=str(idx[b][0]), path=str(idx[b][1]), observed=str(idx[b][2])))
    ck.sample(dict(trace=tr[0]))
    ck.extra["rule"] = "all paths up to length %d over {/ a b . {} for %d patterns; random patterns of up to 5 segments with paths derived from them" % (L, len(PATS))


main("R03", run)
