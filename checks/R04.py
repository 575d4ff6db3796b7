"""Path pattern grammar: automaton = declarative grammar (TLC, all short
strings), then every string replayed in path_parser<true/false>."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def line(p): return "P " + hx(p)


def spell(w):
    return "".join(" %s:%s" % (t["k"], hx(t["v"])) for t in w["toks"])


def want(w, n):
    return "%d %d%s" % (w["ok"], n, spell(w) if w["ok"] else "")


def run(ck):
    exe_f = ck.build_async("paths", boost=True)
    L = 6 if ck.thorough else 5
    recs, _ = ck.tlc("PathParserMC", consts=dict(Alphabet="{47, 97, 98, 123, 125, 35, 37, 52, 71}", MaxLen=L),
                     invariants=["Accepts", "Spells", "NoWildStronger", "Alternates", "EmitInv"])
    # every character in every automaton state
    more, _ = ck.tlc("PathBytesMC", init="InitB", next="NextB", invariants=["Accepts", "Spells", "NoWildStronger", "EmitInv"],
                     consts=dict(Alphabet="0..255", MaxLen=6), tag="every byte in every automaton state")
    recs += more
    exe = exe_f.result()
    out = ck.run_cases(exe, recs, lambda r: line(r["p"]))
    for r, o in zip(recs, out):
        if o is None: continue
        ck.steps += 1; ck.seen(bytes(r["p"]))
        ck.expect("replay", repr(bytes(r["p"])), want(r["w"], r["n"]), o)
    ck.traces += len(recs)
    ck.sample(dict(p=bytes(recs[-1]["p"]).decode("latin1"), spec=want(recs[-1]["w"], recs[-1]["n"])))
    # --- longer patterns assembled from segments, possibly damaged; judged by TLC
    n = 20000 if ck.thorough else 4000
    rng = ck.rng
    names = [b"a", b"b", b"ab", b"x", b"user", b"user_id", b"a-b", b"a.b", b"a~", b"a%20b", b"a:b", b"a@b", b"(a)", b"a*"]
    stat = [b"", b"a", b"x", b"api", b"v1", b"%41", b"%zz", b"%4", b"a.b", b"a+b", b"$", b"user", b"!'()*+,;=", b"a b", b"\xc3\xa9", b"^", b"a|b", b"[a]", b"?"]
    pats = []
    for _ in range(n):
        segs = []
        for k in range(rng.randrange(0, 6)):
            z = rng.random()
            segs.append(b"{" + rng.choice(names) + b"}" if z < .4 else rng.choice(stat) if z < .5 else rng.choice(stat[1:4] + stat[5:6] + stat[8:12]))
        if rng.random() < .3: segs.append(rng.choice([b"", b"", b"a"]) + b"#" + rng.choice(names))
        p = b"/" + b"/".join(segs) if rng.random() < .95 else b"/".join(segs)
        if rng.random() < .25 and p:
            k = rng.randrange(len(p) + 1); z = rng.random()
            ch = rng.choice([b"/", b"{", b"}", b"#", b"%", b"a", bytes([rng.randrange(256)])])
            p = p[:k] + (ch if z < .7 else b"") + p[k + (z > .4):]
        pats.append(p)
    out = ck.run_cases(exe, pats, line)
    tr, idx = [], []
    for k, (p, o) in enumerate(zip(pats, out)):
        if o is None: continue
        ck.steps += 1; ck.seen(p)
        try:
            f = o.split()
            tk = [dict(k=x[0], v=list(unhx(x[2:]))) for x in f[2:]]
            if any(t["k"] not in "spw" for t in tk) or any(x[1] != ":" for x in f[2:]): raise ValueError
            tr.append(dict(t="parse", p=list(p), w=dict(ok=f[0] == "1", toks=tk), n=f[1] == "1")); idx.append(k)
        except (ValueError, IndexError):
            ck.violation("trace", dict(case=repr(p), observed=o))
    for b in ck.validate("PathsTrace", tr):
        ck.violation("trace", dict(case=repr(pats[idx[b]]), observed=out[idx[b]]))
    ck.sample(dict(trace=tr[0]))
    ck.extra["rule"] = "replay: all strings up to length %d over {/ a b { } # %% 4 G} and every byte after every automaton state; random assembled patterns with 25%% damaged" % L


main("R04", run)
