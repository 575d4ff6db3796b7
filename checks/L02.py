"""The log line formatter."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *
import itertools


def seq(b): return tla_seq(b) if b else "<< >>"
def pat(*xs):
    return "<<" + ", ".join('[f |-> "lit", t |-> %s]' % seq(x[1:].encode()) if x[0] == "=" else '[f |-> "%s", t |-> << >>]' % x for x in xs) + ">>"


PATS = [pat("=[", "TIME", "= ", "LV", "= ", "FUNC", "=] ", "MSG", "= [", "FILE", "=:", "LINE", "=:", "COL", "=]"),
        pat("TIMEM", "=|", "LV", "=|", "MSG", "=|", "FUNC", "=|", "FILE", "=|", "LINE", "=|", "COL"),
        pat("MSG"), pat("COL", "LINE", "FILE", "FUNC", "MSG", "LV"), pat("={", "MSG", "=} ", "LV", "= {}"),
        "<< >>", pat("=no fields"), pat("LV", "LV", "= ", "MSG", "=/", "MSG"), pat("=[", "LINE6", "=] ", "FUNC12", "=:", "MSG5")]


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("logtext")
    rng = ck.rng
    cfgs = [(p, n, f, s) for p in range(9) for n in range(3) for f in "fn-" for s in range(7)]
    msgs = [b"", b"hello", b"{}", b"{0}", b"{MSG:}", b"{{", b"}", b"%s%n", b"a\0b", b"\x1b[31mred\x1b[0m", b"two\nlines\r\n", b"\xff\xfe", "größe €".encode(), b"x" * 700, b"[INFO]", b"{LV:} {TIME}"]
    msgs += [bytes(x) for n in range(1, 5 if T else 4) for x in itertools.product(b"{}:%\n\x1ba", repeat=n)]
    times = [(0, 0, 0), (0, 86399, 999999999), (-1, 86399, 0), (-1, 0, 0), (59, 3600, 1), (789, 43200, 0), (11016, 1, 0), (11017, 59, 5), (19675, 80000, 123456789), (24855, 11647, 0), (24855, 11648, 0),
             (47540, 0, 0), (47541, 0, 0), (47599, 12, 0), (-25509, 3661, 0), (-365, 0, 0), (106751, 0, 0)]
    times += [(rng.randrange(-20000, 60000), rng.randrange(86400), rng.randrange(10 ** 9)) for _ in range(400 if T else 60)]
    times += [(d, 12345, 0) for y in (1972, 1999, 2000, 2024, 2100) for d in [(y - 1970) * 365 + (y - 1969) // 4 - (1 if y > 2100 else 0) + k for k in (-1, 0, 30, 31, 58, 59, 60, 364, 365)]]
    times = [(d, s, 0 if d < 0 else n) for d, s, n in times]   # the clock never shows a fraction before 1970
    files = [b"/a/b/c.cpp", b"c.cpp", b"C:\\src\\x.cpp", b"a/b\\c", b"a\\b/c", b"", b"/", b"dir/", b"{}", b"..//x y.h"]
    funcs = [b"int main()", b"void f<T>(T) [with T = {}]", b"", b"operator\"\"", b"a_very_long_function_name"]
    nums = ["0", "1", "42", "999999", "1234567", "4294967295", "2147483648"]
    recs = []
    def rec(m=b"hello", t=(19675, 80000, 5), lv=2, li="12", co="3", fi=b"/a/b/c.cpp", fu=b"int main()"):
        recs.append((m, t, lv, li, co, fi, fu)); return len(recs) - 1
    few = [rec(), rec(b"{}\x1b", (11016, 3, 0), 4, "7", "4294967295", b"a\\b/c", b"f"), rec(b"", (0, 0, 0), 6), rec(b"abcdefg", lv=0, li="1234567", fu=b"a_very_long_function_name")]
    few += [rec(lv=l) for l in range(7)]
    many = [rec(m) for m in msgs] + [rec(t=t) for t in times] + [rec(fi=f, fu=g) for f in files for g in funcs] + [rec(li=a, co=b) for a in nums for b in nums]
    many += [rec(rng.choice(msgs), rng.choice(times), rng.randrange(7), rng.choice(nums), rng.choice(nums), rng.choice(files), rng.choice(funcs)) for _ in range(2000 if T else 300)]
    allc = [i for i, c in enumerate(cfgs)]
    # the wide configurations leave out padded patterns for non-ASCII texts
    cA = [cfgs.index(x) for x in ((0, 0, "-", 0), (0, 1, "f", 1), (1, 2, "n", 6), (4, 0, "-", 5), (3, 0, "f", 2), (7, 1, "n", 4))]
    rows = [sorted(set(few) | (set(many) if c in cA else set())) for c in allc]
    style = lambda s: {4: 2, 5: 1}.get(s, s)
    consts = dict(Patterns="<<%s>>" % ", ".join(PATS),
                  Cfgs="<<%s>>" % ", ".join('[pat |-> %d, nl |-> %d, full |-> %s, style |-> %d]' % (p + 1, n, "TRUE" if f == "f" else "FALSE", style(s)) for p, n, f, s in cfgs),
                  Recs="<<%s>>" % ", ".join('[msg |-> %s, day |-> %d, sec |-> %d, lv |-> %d, line |-> %s, col |-> %s, file |-> %s, func |-> %s]' % (
                      seq(m), t[0], t[1], lv, seq(li.encode()), seq(co.encode()), seq(fi), seq(fu)) for m, t, lv, li, co, fi, fu in recs),
                  Rows="<<%s>>" % ", ".join("{%s}" % ", ".join(str(r + 1) for r in x) for x in rows))
    inv = ["EmitInv", "Verbatim", "Located", "NoStray", "Balanced", "Ends", "Calendar"]
    f = ck.tlc_async("LineMC", init="InitL", next="NextL", consts=consts, workers=8, tag="line", invariants=inv)
    exe = exe_f.result()
    out, _ = f.result()
    ck.traces += len(out)
    def enc(x):
        p, n, fu, s = cfgs[x["c"] - 1]; m, t, lv, li, co, fi, fn = recs[x["r"] - 1]
        return "line %d %d %s %d %d %d %d %s %s,%s %s %s" % (p, n, fu, s, t[0] * 86400 + t[1], t[2], lv, hx(m), li, co, hx(fi), hx(fn))
    for x, o in zip(out, ck.run_cases(exe, out, enc)):
        if o is None: continue
        ck.steps += 1; ck.seen(enc(x))
        ck.expect("line", enc(x), bytes(x["o"]).decode("latin1"), bytes.fromhex("" if o == "-" else o).decode("latin1") if o != "unstable" else o)
    ck.sample(dict(case=enc(out[0]), line=bytes(out[0]["o"]).decode("latin1")))
    ck.extra["rule"] = "%d configurations with %d records each, %d configurations with %d records" % (len(allc), len(few), len(cA), len(many))


main("L02", run)
