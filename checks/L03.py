"""The asynchronous logger: every schedule of the model, stress runs, the
front ends and the writers."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

NAMES = ["TRACE", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL"]


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("logger", boost=True, files=True)
    tsan_f = ck.build_async("logger", boost=True, files=True, san=False, opt="-O1", extra=["-fsanitize=thread", "-g1"])
    plans = [(dict(Plans="<<<<2, 0>>, <<5>>>>", Min=2, Writers=2, MaxAdds=0), 0, "2"),
             (dict(Plans="<<<<2, 3>>, <<4, 0>>>>", Min=1, Writers=2, MaxAdds=0), 0, "1"),
             (dict(Plans="<<<<2, 3>>, <<4>>>>", Min=0, Writers=1, MaxAdds=1), 1, "-"),
             (dict(Plans="<<<<0>>, <<1>>, <<3>>>>", Min=0, Writers=1, MaxAdds=0), 2, "-"),
             (dict(Plans="<<<<1>>, <<5>>>>", Min=0, Writers=0, MaxAdds=2), 0, "0")]
    if T:
        plans += [(dict(Plans="<<<<2, 3, 4>>, <<5>>>>", Min=3, Writers=2, MaxAdds=1), 1, "3"),
                  (dict(Plans="<<<<2, 3>>, <<4, 1>>, <<0>>>>", Min=0, Writers=1, MaxAdds=0), 0, "-"),
                  (dict(Plans="<<<<2>>, <<4>>>>", Min=0, Writers=3, MaxAdds=0), 3, "-")]
    mf = [ck.tlc_async("LoggerMC", init="InitL", next="NextL", consts=c, workers=2, tag=str(i), invariants=["EmitInv", "Right", "SoFar"]) for i, (c, _, _) in enumerate(plans)]
    lf = ck.tlc_async("LoggerMC", spec="Fair", consts=dict(Plans="<<<<2, 0>>, <<5>>>>", Min=1, Writers=2, MaxAdds=1), workers=2, tag="ends", properties=["Ends"])
    exe = exe_f.result()
    records, keys = [], []

    def judge_later(calls, writers, mn, key):
        records.append(dict(calls=calls, writers=writers, min=mn)); keys.append(key)

    for (c, buf, flt), f in zip(plans, mf):
        recs, _ = f.result()
        uniq = {}
        for h in recs: uniq[tuple((s["s"], s["t"], s["lv"]) for s in h)] = 1
        cases = list(uniq)
        enc = lambda h: "run %d %s %d %s" % (buf, flt, c["Writers"], " ".join("c%d%d" % (t - 1, lv) if s == "c" else s for s, t, lv in h))
        for h, o in zip(cases, ck.run_cases(exe, cases, enc, case_timeout=60)):
            if o is None or o == "skipped": continue
            ck.steps += len(h); ck.seen(enc(h))
            m = re.fullmatch(r"([^|]*)\|([^|]*)", o)
            bad = not m or "stuck" in o or "hangs" in o or "!" in o or "CRASH" in o
            if bad:
                ck.violation("schedule", dict(case=enc(h), observed=o)); continue
            calls, since = [], [0] * c["Writers"]
            for i, (s, t, lv) in enumerate(h):
                if s == "c": calls.append(dict(lv=lv, b=2 * i + 1, e=2 * i + 2))
                if s == "a": since.append(2 * i + 1)
            ids = lambda x: [int(k) for k in x.split(",")] if x != "-" else []
            before, after = [[ids(x) for x in part.split()] for part in m.groups()]
            if len(after) != len(since) or any(a[:len(b)] != b for a, b in zip(after, before)):
                ck.violation("schedule", dict(case=enc(h), observed=o)); continue
            judge_later(calls, [dict(since=s, out=x) for s, x in zip(since, after)], c["Min"], enc(h))
        ck.sample(dict(schedule=enc(cases[-1]), observed=o))
    # stress
    d = os.path.join(ck.tmp, "logs"); os.makedirs(d)
    n = 1500 if T else 240
    cases = []
    for i in range(n):
        flt = ck.rng.choice(["-", "-", "2", "4", "6"])
        cases.append((i + ck.seed * 1000, ck.rng.choice([1, 2, 4, 8]), ck.rng.choice([1, 5, 30]), ck.rng.choice([1, 2, 3]), ck.rng.choice([0, 0, 1, 64]), flt, ck.rng.randrange(2)))

    def stress(x, tag):
        def enc(c):
            p = os.path.join(d, tag + str(c[0])); os.makedirs(p, exist_ok=True)
            return "stress %d %d %d %d %d %s %d %s" % (*c, p)
        for c, o in zip(cases if tag == "a" else cases[:n // 2], ck.run_cases(x, cases if tag == "a" else cases[:n // 2], enc, min_chunk=30, timeout=200)):
            if o is None or o == "skipped": continue
            ck.steps += 1; ck.seen((tag, c))
            try:
                okay, cl, ws, files = o.split(";")
                if okay != "ok" or "!" in ws: raise ValueError
                calls, idx = [], {}
                for q in cl.split():
                    i, th, lv, b, e = map(int, q.split(","))
                    calls.append(dict(lv=lv, b=b, e=e)); idx[i] = len(calls)
                writers = []
                for q in ws.split():
                    s, x = q.split(":")
                    writers.append(dict(since=int(s), out=[idx[int(k)] for k in x.split(",") if k]))
                for fx in files.split():
                    lines = unhx(fx).decode("latin1").split("\n")
                    if lines[0] != "old" or lines[-1] != "": raise ValueError
                    out = []
                    for ln in lines[1:-1]:
                        m = re.fullmatch(r"([A-Z]+) r(\d+)\{\}", ln)
                        if not m or NAMES[calls[idx[int(m.group(2))] - 1]["lv"]] != m.group(1): raise ValueError
                        out.append(idx[int(m.group(2))])
                    writers.append(dict(since=0, out=out))
            except (ValueError, KeyError):
                ck.violation("stress", dict(case=enc(c), sanitizer="thread" if tag == "t" else "address", observed=o[:3000])); continue
            judge_later(calls, writers, 0 if c[5] == "-" else int(c[5]), enc(c))
    stress(exe, "a")
    tsan = tsan_f.result()
    rc, o, err = ck.run(tsan, ["front - 2 61"])
    if rc == 0 and o == ["2:6161%s:here:now " % "6237"]: stress(tsan, "t")
    elif "FATAL: ThreadSanitizer" in err or "personality" in err: ck.assumptions.append("the thread sanitizer does not run here: data races are only seen by their effects")
    else: ck.violation("stress", dict(case="front - 2 61 (thread sanitizer)", observed="rc=%d %s %s" % (rc, o, summarize(err))))
    for b in ck.validate("LoggerTrace", records, chunk=40):
        ck.violation("order", dict(case=keys[b], history=records[b]))
    # front ends: the level decides, the message and the place are the caller's
    cases = [(mn, k, a) for mn in ["x", "-"] + list("0123456") for k in list(range(6)) + list(range(10, 17)) for a in (b"", b"{}", b"%d {0}\n", b"\xff\x00x")]
    for (mn, k, a), o in zip(cases, ck.run_cases(exe, cases, lambda c: "front %s %d %s" % (c[0], c[1], hx(c[2])))):
        if o is None or o == "skipped": continue
        ck.steps += 1; ck.seen(("front", mn, k, a))
        lv = k if k < 10 else k - 10
        want = "%d:%s:here:now " % (lv, hx(b"a" + a + b"b7")) if mn != "x" and lv < 6 and lv >= (0 if mn == "-" else int(mn)) else "-"
        ck.expect("front", [mn, k, hx(a)], want, o)
    for k in range(6):
        for a in (b"", b"{}", b"x\ny"):
            if ck.violations: break
            o = ck.run_cases(exe, [(k, a)], lambda c: "cout %d %s" % (c[0], hx(c[1])))[0]
            ck.steps += 1
            try:
                one, two = o.split(" ")
                good = unhx(one) == b"%s/%s\r%s/2\r" % (NAMES[k].encode(), a, NAMES[k].encode()) and re.fullmatch(
                    rb"\[[-0-9T:]+Z \x1b\[[0-9;]+m%s\x1b\[0m [^\n]*\] %s \[logger\.cpp:\d+:\d+\]\n\[[-0-9T:]+Z \x1b\[[0-9;]+m%s\x1b\[0m [^\n]*\] 2 \[logger\.cpp:\d+:\d+\]\n" % (NAMES[k].encode(), re.escape(a), NAMES[k].encode()), unhx(two))
            except ValueError:
                good = False
            if not good: ck.violation("stdout", dict(level=k, message=hx(a), observed=o))
    lf.result()
    ck.extra["rule"] = "every schedule of %d plans (calls of up to 3 threads, attaching, single writes, destruction), %d stress runs under the address and %d under the thread sanitizer" % (len(plans), n, n // 2)


main("L03", run)
