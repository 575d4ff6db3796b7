"""header_map: every operation in every state of two small maps is replayed;
long random histories with many names are judged by TLC."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def enc(ops, field=False):
    r = []
    for o in ops:
        k = o["o"]
        if field and k in ("set", "ins", "era") and o["l"] in FIELDS: k = "f" + k
        r.append("%s %s %s %s" % (k, o["d"], hx(o["n"].encode("latin1")), hx(o["v"].encode("latin1"))))
    return " ".join(r)


FIELDS = {"content-type": "Content-Type", "set-cookie": "Set-Cookie", "etag": "ETag", "te": "TE", "host": "Host"}


def low(s): return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def parse(line):
    res = []
    for part in line.split(";")[:-1]:
        r, bad, a, b = part.split(" ")
        f = lambda x: [] if x in (".", "?") else [dict(n=unhx(e.split("=")[0]).decode("latin1"), v=unhx(e.split("=")[1]).decode("latin1")) for e in x.split(",")]
        res.append(dict(res=int(r), bad=int(bad), a=f(a), b=f(b)))
    for o in res:
        for m in ("a", "b"):
            for e in o[m]: e["l"] = low(e["n"])
    return res


def shows(it, m):
    g = lambda x: {l: [(e["n"], e["v"]) for e in x if e["l"] == l] for l in {e["l"] for e in x}}
    return g(it) == g(m)


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("headermap", boost=True)
    names = '{<<"a", "a">>, <<"a", "A">>, <<"content-type", "Content-Type">>%s}' % (', <<"set-cookie", "Set-Cookie">>' if T else "")
    recs, _ = ck.tlc("HeaderMapMC", consts=dict(Names=names, Values='{"1", ""}', Max=3 if T else 2), invariants=["Laws"], view="View", tag="two maps", timeout=840)
    exe = exe_f.result()
    if T and len(recs) > 400000: recs = recs[::len(recs) // 400000 + 1]
    cases = [(r, i % 2 == 1) for i, r in enumerate(recs)]
    out = ck.run_cases(exe, cases, lambda c: enc(c[0]["ops"], c[1]), timeout=800)
    for (r, f), o in zip(cases, out):
        if o is None: continue
        ck.steps += 1
        line = enc(r["ops"], f); ck.seen(line)
        try: ob = parse(o)[-1]
        except (ValueError, IndexError): ck.violation("replay", dict(case=line, observed=o[:500])); continue
        why = None
        if ob["bad"]: why = "observers disagree"
        elif ob["res"] != r["res"]: why = "erase returned %d, specified %d" % (ob["res"], r["res"])
        elif r["oka"] and not shows(ob["a"], r["a"]): why = "first map is %s, specified %s" % (ob["a"], r["a"])
        elif r["okb"] and not shows(ob["b"], r["b"]): why = "second map is %s, specified %s" % (ob["b"], r["b"])
        if why: ck.violation("replay", dict(why=why, ops=r["ops"], case=line))
    ck.traces += len(cases)
    ck.sample(dict(ops=recs[-1]["ops"], a=recs[-1]["a"], b=recs[-1]["b"]))
    rng = ck.rng
    base = ["a", "b", "X-Custom-Header-With-A-Long-Name", "ab", "aa", "Z"] + list(FIELDS.values())
    lines, meta = [], []
    for _ in range(5000 if T else 700):
        ok = dict(a=True, b=True); ops = []
        pool = rng.sample(base, rng.randrange(2, len(base)))
        for _ in range(rng.randrange(5, 60)):
            o = rng.choice(["set"] * 3 + ["ins"] * 6 + ["era"] * 2 + ["clr", "cpy", "mov", "swp", "rt", "rt", "cct", "self"]); d = rng.choice("ab"); e = "b" if d == "a" else "a"
            if o in ("cpy", "mov"):
                if not ok[e]: continue
                ok[d] = True
                if o == "mov": ok[e] = False
            elif o == "swp": ok = dict(a=ok["b"], b=ok["a"])
            elif o == "clr": ok[d] = True
            elif not ok[d]: continue
            n = ""
            if o in ("set", "ins", "era"):
                n = rng.choice(pool)
                if rng.random() < .4: n = "".join(rng.choice([c.upper(), c.lower()]) for c in n)
            v = rng.choice(["", "1", "2", "v" * 300, "text/html; q=1", "\xe9"]) if o in ("set", "ins") else ""
            ops.append(dict(o=o, d=d, l=low(n), n=n, v=v))
        f = rng.random() < .3
        if f:
            for p in ops:
                if p["l"] in FIELDS and p["o"] in ("set", "ins", "era"): p["n"] = FIELDS[p["l"]]
        lines.append(enc(ops, f)); meta.append(ops)
    out = ck.run_cases(exe, lines, lambda l: l)
    tr, idx = [], []
    for i, (ops, o) in enumerate(zip(meta, out)):
        if o is None: continue
        ck.steps += len(ops); ck.seen(lines[i])
        try:
            obs = parse(o)
            if len(obs) != len(ops): raise ValueError
            tr.append(dict(ops=ops, obs=obs)); idx.append(i)
        except ValueError: ck.violation("trace", dict(case=lines[i][:500], observed=o[:500]))
    for b in ck.validate("HeaderMapTrace", tr, chunk=25):
        ck.violation("trace", dict(ops=meta[idx[b]], observed=out[idx[b]][:2000]))
    ck.extra["rule"] = "every operation (string and field forms) in every state of two maps with names differing in case; random histories of up to 60 operations over 11 names"


main("H03", run)
