"""Programs that build applications (spec/App.tla): generated by TLC, written
out as C++, compiled against the current tree and run."""
import os, sys, json, hashlib, collections
from vlib import *

KIND = {"pass": "p", "stop": "s", "twice": "t", "eh": "e", "late": "l"}


def path(p):
    s = "".join("/s%d" % x for x in p[:-1] if x)
    return s + "/r%d" % (p[-1] - 100)


def stm(i, s):
    o, a, b, v = s["o"], s["a"], s["b"], s["v"]
    if o == "ns":
        e = 'scope<"%s">()' % ("" if v == "0" else "/s" + v)
    elif o == "nr":
        e = 'route::get<"/r%d">(page{%d,%s})' % (a, 100 + a, "true" if v == "throw" else "false")
    elif o == "use":
        e = "v%d.use(middleware::exception_handler())" % a if v == "eh" else "v%d.use(layer{%d,'%s'})" % (a, i, KIND[v])
    elif o == "st":
        e = "v%d.use_state(st<%s>{%d})" % (a, v, i)
    else:
        e = "v%d.serve(v%d)" % (a, b)
    return "  auto v%d = %s;" % (i, e)


def cxx(progs):
    out = ['#include "app.hpp"', ""]
    for k, p in enumerate(progs):
        out.append("static void prog%d()\n{\n  net::io_context ioc;" % k)
        out += [stm(i + 1, s) for i, s in enumerate(p["steps"])]
        out.append("  auto b = http_server::builder(ioc);")
        out += ["  b.serve(v%d);" % t for t in p["tops"]]
        out.append("  auto server = b.build();")
        n = 0
        for r in p["reqs"]:
            out.append('  ask(ioc, server, "%s");' % path(r["p"]))
        out.append('  std::printf("\\n");\n}\n')
    out.append("int main()\n{\n  std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);")
    out += ["  prog%d();" % k for k in range(len(progs))]
    out.append("  return 0;\n}")
    return "\n".join(out) + "\n"


def tok(e):
    if e[0] == "h":
        return "h%d:" % e[1] + ":".join("%d.%d" % tuple(x) for x in e[2:])
    return "%s%d" % (e[0], e[1])


def want(r):
    return dict(status=r["status"], tr=[x for x in r["tr"]], log=[tok(e) for e in r["log"]])


def got(txt):
    head, rest = txt.split(" [", 1)
    tr, log = rest.split("] ", 1)
    return dict(status=int(head) if head.isdigit() else head, tr=[int(x) for x in tr.split(",") if x], log=log.split())


def features(p):
    """What a program exercises; used only to choose a varied set."""
    f = set()
    uses = collections.defaultdict(list)
    for i, s in enumerate(p["steps"]):
        if s["o"] in ("use", "st", "sv"):
            uses[s["a"]].append(s["o"])
        if s["o"] == "sv":
            uses[s["b"]].append("in")
    for k, u in uses.items():
        for i in range(len(u)):
            for j in range(i + 1, len(u)):
                f.add(("branch", p["steps"][k - 1]["o"], u[i], u[j]))
    kinds = {i + 1: s["v"] for i, s in enumerate(p["steps"]) if s["o"] == "use"}
    owner = collections.defaultdict(set)
    for r in p["reqs"][:len(p["reqs"]) // 2]:
        f.add(("depth", len(r["p"])))
        f.add(("mw", tuple((e[0], kinds.get(e[1])) for e in r["log"] if e[0] in "+!")))
        for e in r["log"]:
            if e[0] == "h":
                f.add(("look", len(r["p"]), tuple(x[0] != 0 for x in e[2:])))
                for t, x in enumerate(e[2:]):
                    if x[0]: owner[x[0]].add(tuple(r["p"]))
                reg = [s["v"] for s in p["steps"] if s["o"] == "st"]
                for t in "123":
                    f.add(("shadow", t, len(r["p"]), reg.count(t), e[int(t) + 1][0] != 0))
        f.add(("status", r["status"], len(r["tr"]), len(r["p"])))
    for k, v in owner.items():
        f.add(("shared", len(v), len({len(x) for x in v})))
    return f


def choose(recs, n, rng):
    """Greedy: rare features first, then many features."""
    rng.shuffle(recs)
    fs = [features(r) for r in recs]
    seen, out = collections.Counter(), []
    pool = list(range(len(recs)))[:60000]
    for _ in range(n):
        cand = rng.sample(pool, min(len(pool), 400))
        best = max(cand, key=lambda i: (sum(1.0 / (1 + seen[x]) ** 2 for x in fs[i]), -len(recs[i]["steps"])))
        out.append(recs[best]); seen.update(fs[best])
    return out


def behaviours(ck):
    """The laws on every small program; then larger programs at random."""
    small = dict(Kinds='{"pass", "stop", "twice", "eh", "late"}', HKinds='{"ok", "throw"}', ScopePaths='{0, 1}',
                 MaxRoutes=2, MaxMw=3, Rounds=2)
    inv = dict(invariants=["Onions", "Balanced", "Nearest"], properties=["Persistent"])
    ck.tlc("AppMC", consts=dict(MinLen=99, MaxLen=5 if ck.thorough else 4, **small), **inv)
    big = dict(Kinds='{"pass", "stop", "twice", "eh", "late"}', HKinds='{"ok", "throw"}', ScopePaths='{0, 1, 2}',
               MaxRoutes=3, MaxMw=4, Rounds=2)
    futs = []
    for lo, hi, kinds, hk, n in ((8, 12, '{"pass", "stop", "twice", "eh", "late"}', '{"ok", "throw"}', 900),
                                 (8, 12, '{"pass"}', '{"ok"}', 900), (12, 18, '{"pass", "pass2"}', '{"ok"}', 500)):
        kinds = kinds.replace(', "pass2"', "")
        futs.append(ck.tlc_async("AppMC", consts=dict(MinLen=lo, MaxLen=hi, **dict(big, Kinds=kinds, HKinds=hk)), simulate=n * (6 if ck.thorough else 1),
                      depth=hi + 2, workers=1, count=False, heap="3g"))
    return [sorted(f.result()[0], key=json.dumps) for f in futs]


def run_programs(ck, pick):
    """Compile and run; pick(want, got) gives the parts to compare."""
    groups = behaviours(ck)
    per, files = (30, 7) if not ck.thorough else (40, 35)
    progs = []
    for g in groups:
        progs += choose(g, per * files // len(groups), ck.rng)
    ck.rng.shuffle(progs)
    batches = [progs[i::files] for i in range(files)]
    exes = []
    for i, b in enumerate(batches):
        src = os.path.join(ck.tmp, "app%d.cpp" % i)
        open(src, "w").write(cxx(b))
        exes.append(ck.build_async("app%d" % i, srcs=[src], boost=True))
    for b, e in zip(batches, exes):
        exe = e.result()
        rc, lines, err = ck.run(exe, None)
        for k, p in enumerate(b):
            ck.seen(json.dumps(p["steps"])); ck.traces += 1
            code = "\n".join(stm(i + 1, s) for i, s in enumerate(p["steps"])) + "\n  // served: %s" % p["tops"]
            ans = lines[k].split("|")[:-1] if k < len(lines) else []
            if len(ans) != len(p["reqs"]):
                ck.violation("program", dict(program=code, error="the program ended early (rc %s)" % rc, stderr=err[-1500:], output=ans))
                break
            for r, a in zip(p["reqs"], ans):
                ck.steps += 1
                w, g = pick(want(r)), pick(got(a))
                if w != g:
                    ck.violation("program", dict(program=code, request=path(r["p"]), expected=w, observed=g))
                    break
    ck.sample(dict(program=[stm(i + 1, s).strip() for i, s in enumerate(progs[0]["steps"])], reqs=[want(r) for r in progs[0]["reqs"]]))
