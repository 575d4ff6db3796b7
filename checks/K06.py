"""Awaiting asynchronous operations: use_awaitable and as_expected."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

op = lambda k, f: '[t |-> "op", k |-> %d, f |-> "%s"]' % (k, f)
node = lambda t, l, r: '[t |-> "%s", l |-> %s, r |-> %s]' % (t, l, r)


def shapes(n):
    """all binary trees over n operations, as functions of the operations"""
    if n == 1: return [lambda o: o[0]]
    out = []
    for t in ("any", "all"):
        for i in range(1, n):
            for a in shapes(i):
                for b in shapes(n - i):
                    out.append(lambda o, t=t, i=i, a=a, b=b: node(t, a(o[:i]), b(o[i:])))
    return out


def programs(n, flags, lens=None):
    """programs of one tree over n operations, or of several (lens)"""
    out = []
    for fl in itertools.product(flags, repeat=n):
        if fl.count("imm") > 1: continue
        o = [op(i + 1, f) for i, f in enumerate(fl)]
        if lens is None: out += ["<<%s>>" % s(o) for s in shapes(n)]
        else:
            at, parts = 0, []
            for l in lens: parts.append([s(o[at:at + l]) for s in shapes(l)]); at += l
            out += ["<<%s>>" % ", ".join(p) for p in itertools.product(*parts)]
    return out


VALUES = dict(v=["-"], i=["0", "1", "-1", "2147483647"], s=["", "a", "x" * 40, "\0\xff"], u=["", "unique", "y" * 99], c=["none", "s104", "m0", "m7"], r=["", "ref", "z" * 33])
CODES = ["s104", "s2", "g22", "m7", "m-1", "a1", "x2", "x1", "s125"]
PAIRS = ["vv", "vi", "iv", "us", "cv"]


def realize(rec, rng, direct):
    """commands and expectations of one behaviour"""
    p = rec["p"]
    ks = []
    def walk(t):
        if t["t"] == "op": ks.append(t["k"]); return
        walk(t["l"]); walk(t["r"])
    for t in p: walk(t)
    kind = {k: rng.choice("visucr") for k in ks}
    def pairs(t):
        if t["t"] == "op": return
        if t["l"]["t"] == t["r"]["t"] == "op" and (direct or rng.random() < .4): kind[t["l"]["k"]], kind[t["r"]["k"]] = rng.choice(PAIRS)
        else: pairs(t["l"]); pairs(t["r"])
    for t in p: pairs(t)
    def outcome(k, r):
        if r == "ok":
            v = rng.choice(VALUES[kind[k]])
            return "ok " + (v if kind[k] == "v" else hx(v.encode("latin1"))), "ok:" + ("-" if kind[k] == "v" else hx((v if (kind[k], v) != ("c", "m0") else "none").encode("latin1")))
        c = rng.choice(CODES)
        return "e " + c, "e:" + c
    def text(t):
        if t["t"] == "op": return kind[t["k"]] + str(t["k"]) + dict(hear="", deaf="d", imm="i")[t["f"]]
        return {"any": "|", "all": "&"}[t["t"]] + " " + text(t["l"]) + " " + text(t["r"])
    cmds, want, res = [], [], {}
    for k, r in sorted((int(k), r) for k, r in (rec["pre"].items() if isinstance(rec["pre"], dict) else enumerate(rec["pre"], 1))):
        c, res[k] = outcome(k, r); cmds.append("set %d %s" % (k, c)); want.append(None)
    for h in rec["h"]:
        if h["a"] == "run": cmds.append("run await " + " ".join(text(t) for t in p))
        elif h["a"] == "cancel": cmds.append("cancel")
        else: c, res[h["k"]] = outcome(h["k"], h["r"]); cmds.append("done %d %s" % (h["k"], c))
        o = h["ob"]
        rs = ["=" + " ".join(x["t"] if x["t"] != "op" else ("e:s125" if x["r"] == "s125" else res[x["k"]]) for x in toks) for toks in o["res"]]
        want.append((sorted("+%d" % k for k in o["st"]), sorted("-%d" % k for k in o["told"]), rs, bool(o["exc"])))
    return ";".join(cmds), want


def differs(want, line):
    got = line.split(";") if line else []
    if len(got) != len(want): return "%d answers, specified %d" % (len(got), len(want))
    for i, (w, g) in enumerate(zip(want, got)):
        e = [] if g == "-" else g.split(",")
        if w is None:
            if e: return "command %d: %s" % (i, e)
            continue
        st, told, rs, exc = w
        o = (sorted(x for x in e if x[0] == "+"), sorted(x for x in e if x[0] == "-"), [x for x in e if x[0] == "="], any(x[0] == "!" for x in e))
        if o != (st, told, rs, exc): return "command %d: observed %s, specified %s" % (i, o, w)
        if len(e) != len(st) + len(told) + len(rs) + exc: return "command %d: observed %s" % (i, e)
    return None


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("await", boost=True)
    three = ["hear", "deaf", "imm"]
    plans = [("one", programs(1, three) + programs(2, three) + programs(2, three, (1, 1)), True),
             ("three", programs(3, three if T else ["hear", "deaf"]) + programs(3, three, (1, 2))[:: 1 if T else 3] + programs(3, ["hear", "imm"], (1, 1, 1)), True),
             ("four", programs(4, ["hear", "deaf"]) + programs(4, ["hear", "deaf"] if T else ["hear"], (2, 2)), True)]
    if T: plans.append(("five", programs(5, ["hear"]) + programs(5, ["hear"], (3, 2)), False))
    jobs = [(n, ck.tlc_async("Await", consts=dict(Programs="{" + ", ".join(ps) + "}", Outcomes='{"ok", "err"}', MayCancel="TRUE" if c else "FALSE"), workers=3, tag=n,
                             invariants=["EmitInv", "Whole", "Results", "Faithful", "Losers"])) for n, ps, c in plans]
    jobs.append(("live", ck.tlc_async("Await", spec="Spec", consts=dict(Programs="{" + ", ".join(plans[0][1]) + "}", Outcomes='{"ok", "err"}', MayCancel="TRUE"), workers=2, tag="ends", properties=["Ends"], invariants=["Whole"])))
    exe = exe_f.result()
    for n, f in jobs:
        recs = f.result()[0]
        if n == "live": continue
        lim = 400000 if T else 20000
        if len(recs) > lim: recs = ck.rng.sample(recs, lim)
        cases = []
        for r in recs:
            for d in (0, 1) if n == "one" else (1,):
                for _ in range(3 if n == "one" else 1): cases.append(realize(r, ck.rng, d))
        outs = ck.run_cases(exe, cases, lambda c: c[0], what="program")
        bad = 0
        for c, o in zip(cases, outs):
            ck.traces += 1; ck.steps += len(c[1]); ck.seen(c[0])
            if o is None: continue
            d = differs(c[1], o)
            if d: bad += 1; ck.violation("await", dict(why=d, commands=c[0], observed=o))
            if bad > 10: break
        ck.sample(dict(plan=n, commands=cases[0][0], observed=outs[0]))
        ck.note("%s: %d programs and schedules" % (n, len(cases)))
    # one operation, other ways to wait for it: the same outcome, once, on the
    # executor the handler is bound to
    cases = []
    for how in ("cb", "move", "ref", "bound", "bound2", "slot", "deferred", "future", "coro"):
        for kind in "visucr":
            for f in ("", "i", "d"):
                for r in ["ok"] * len(VALUES[kind]) + ["err"] * len(CODES):
                    cases.append((how, kind, f, r))
    from collections import Counter
    nth, lines, want = Counter(), [], []
    for how, kind, f, r in cases:
        i = nth[how, kind, f, r]; nth[how, kind, f, r] += 1
        if r == "ok":
            v = VALUES[kind][i]
            o = "ok " + ("-" if kind == "v" else hx(v.encode("latin1"))); x = "=ok:" + ("-" if kind == "v" else hx((v if (kind, v) != ("c", "m0") else "none").encode("latin1")))
        else: o, x = "e " + CODES[i], "=e:" + CODES[i]
        made = ["made"] if how in ("deferred", "coro") else []
        if f == "i": lines.append("set 1 %s;run %s %s1i" % (o, how, kind)); want.append(["-", ",".join(made + ["+1", x])])
        elif how == "slot" and r == "err" and f == "": lines.append("run %s %s1;cancel;cancel" % (how, kind)); want.append(["+1", "-1,=e:s125", "-"])
        elif how == "slot" and f == "d": lines.append("run %s %s1d;cancel;done 1 %s;cancel" % (how, kind, o)); want.append(["+1", "-1", x, "-"])
        else: lines.append("run %s %s1%s;done 1 %s;done 1 %s" % (how, kind, f, o, o)); want.append([",".join(made + ["+1"]), x, "not waiting"])
    outs = ck.run_cases(exe, lines, lambda c: c, what="handler")
    for l, w, o in zip(lines, want, outs):
        ck.traces += 1; ck.steps += len(w); ck.seen(l)
        if o is not None: ck.expect("handler", dict(commands=l), ";".join(w), o)
    ck.note("%d handlers" % len(lines))
    ck.extra["rule"] = "all trees of || and && over up to 4 operations and sequences of trees, all completion orders and outcomes, operations deaf to cancellation or complete at once, cancellation of the coroutine; six kinds of values, five kinds of codes, nine ways to wait"


main("K06", run)
