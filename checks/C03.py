"""Readable streams: every small program over vector, file, user and erased
streams (spec/StreamMC.tla), and random larger ones with short reads, failing
files and sinks; every answer is turned into an interval of the contents and
TLC judges the history (spec/StreamTrace.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def content(rng, n):
    if n <= 200:
        return bytes(rng.sample(range(256), n))          # no byte twice: positions are unambiguous
    return rng.randbytes(n)


def realize(ops, rng):
    """abstract operations -> (line, contents held by each operation's stream)"""
    held, out, own = {}, [], []
    for o in ops:
        k, i, j = o["o"], o["i"], o["j"]
        if k in "VSF":
            held[i] = content(rng, o["n"])
            if k == "F":
                off = "-" if o["off"] < 0 and o["size"] < 0 else str(max(o["off"], 0))
                out.append("F %d %s %s %s" % (i, hx(held[i]), off, "-" if o["size"] < 0 else o["size"]))
            else: out.append("%s %d %s" % (k, i, hx(held[i])))
        elif k == "D": held[i] = b""; out.append("D %d" % i)
        elif k == "P":
            held[i] = content(rng, sum(x for x in o["items"] if x > 0))
            p, at = [], 0
            for x in o["items"]:
                if x < 0: p.append("e"); continue
                p.append(hx(held[i][at:at + x])); at += x
            out.append("P %d %s" % (i, " ".join(p)))
        elif k == "M": held[j] = held.pop(i); out.append("M %d %d" % (i, j))
        elif k == "C": held[j] = held[i]; out.append("C %d %d" % (i, j))
        elif k == "U": out.append("U %d %s" % (i, rng.choice("sbv")))
        elif k == "O": out.append("O %d %d %d" % (i, o.get("most", 1 << 40), o.get("fail", -1)))
        elif k == "T": out.append("T %d %d %d" % (i, o.get("most", 1 << 40), o.get("fail", -1)))
        elif k == "X": out.append("X 0 %d %d %d" % (o["most"], o["fail"], o["seek"]))
        else: out.append("%s %d" % (k, i))
        own.append(held.get(i, held.get(j, b"")))
    return ";".join(out), own


def place(data, cont, marks):
    """where in the contents these bytes are: the first place, and those of the
    given positions (chunk borders, the end of the last chunk) that fit"""
    if not data: return dict(len=0, **{"from": []})
    at = {m for m in marks if cont[m:m + len(data)] == data} | {cont.find(data)}
    return dict(len=len(data), **{"from": sorted(at - {-1})})


def landmarks(op, cont):
    m, at = {0}, 0
    if op["o"] == "P":
        for x in op["items"]: at += max(x, 0); m.add(at)
    if op["o"] == "F" and op["off"] > 0: m.add(op["off"])
    return m


def dechunk(b):
    """(data, closed): chunks must be well-formed, the last one ends the text"""
    data, i = b"", 0
    while True:
        j = b.find(b"\r\n", i)
        if j < 0: return data, False
        try: n = int(b[i:j], 16)
        except ValueError: return None, False
        if n == 0: return (data, True) if b[i:] == b"0\r\n\r\n" else (None, False)
        if len(b) < j + 2 + n + 2: return data + b[j + 2:j + 2 + n], False
        if b[j + 2 + n:j + 4 + n] != b"\r\n": return None, False
        data += b[j + 2:j + 2 + n]; i = j + 4 + n


def observe(op, txt, cont, marks):
    o = dict(k="-", code="", len=0, closed=False, **{"from": []})
    f = txt.split(" ")
    if op["o"] == "R":
        o["k"] = f[0]
        if f[0] == "c": o.update(place(unhx(f[1]), cont, marks))
        elif f[0] == "e": o["code"] = " ".join(f[1:])
    elif op["o"] == "U":
        o["k"] = f[0]
        if f[0] == "o": o.update(place(unhx(f[1]), cont, marks))
        else: o["code"] = " ".join(f[1:])
    elif op["o"] == "O":
        o["k"] = f[0]; o["code"] = "" if f[0] == "o" else " ".join(f[1:-1])
        d, closed = dechunk(unhx(f[-1]))
        o["closed"] = closed
        o.update(place(d, cont, marks) if d is not None else dict(len=-1, **{"from": []}))
    elif op["o"] == "T":
        o["k"] = f[0]; o["closed"] = f[0] == "o"
        d = unhx(f[-1])
        o.update(place(d, cont, marks))
        if f[0] == "o":
            if int(f[1]) != len(d): o["len"] = -1
        else: o["code"] = " ".join(f[1:-1])
    return o


def rand_ops(rng):
    ops, live, wrapped, armed = [], {}, {}, False
    mk = lambda o, i=0, j=0, **k: dict(dict(o=o, i=i, j=j, n=0, items=[], off=0, size=0), **k)
    for _ in range(rng.randint(3, 25)):
        x = rng.random()
        if x < 0.22 or not live:
            i = rng.randrange(4); k = rng.choice("VSDPPPFFF")
            if k == "P": o = mk("P", i, items=[rng.choice([-1, 0, 0, 1, 2, 5, 100, 3000]) for _ in range(rng.randint(0, 7))])
            elif k == "F":
                n = rng.choice([0, 1, 10, 50, 199, rng.choice([65535, 65536, 65537, 140000])])
                off = rng.choice([-1, 0, 1, n - 1, n, n + 1, n // 2, 65536]); off = max(off, -1)
                size = rng.choice([-1, -1, 0, 1, n, n // 3, n + 10, 65536, 65537])
                if off < 0: size = -1
                o = mk("F", i, n=n, off=off, size=size)
            else: o = mk(k, i, n=0 if k == "D" else rng.choice([0, 1, 7, 150, 5000]))
            live[i] = k; wrapped[i] = False
        elif x < 0.62: o = mk("R", rng.choice(list(live)))
        elif x < 0.70: o = mk("U", rng.choice(list(live)))
        elif x < 0.75: o = mk("O", rng.choice(list(live)), most=rng.choice([1 << 40, 1 << 40, 1, 3, 1000]), fail=rng.choice([-1, -1, -1, 0, 4, 500]))
        elif x < 0.80: o = mk("T", rng.choice(list(live)), most=rng.choice([1 << 40, 1 << 40, 7, 1000]), fail=rng.choice([-1, -1, -1, 0, 2]))
        elif x < 0.86: i = rng.choice(list(live)); o = mk("W", i); wrapped[i] = True
        elif x < 0.93:
            i = rng.choice(list(live)); j = rng.choice([s for s in range(4) if s != i]); o = mk("M", i, j)
            live[j] = live.pop(i); wrapped[j] = wrapped[i]
        elif x < 0.96:
            c = [i for i in live if live[i] in "VSD" and not wrapped[i]]
            if not c: continue
            i = rng.choice(c); j = rng.choice([s for s in range(4) if s != i]); o = mk("C", i, j); live[j] = live[i]; wrapped[j] = False
        else:
            o = mk("X", 0, most=rng.choice([1 << 40, 1, 2, 1000]), fail=rng.choice([-1, -1, 0, 1, 3]), seek=rng.choice([0, 0, 0, 1]))
            o["n"] = 1 if o["fail"] >= 0 or o["seek"] else 0
            armed = armed or o["n"]
            if armed: o["n"] = 1          # a failure asked for may still be due
        if o["o"] in "OT": o["n"] = 1 if o["fail"] >= 0 else 0
        ops.append(o)
    return ops


def run(ck):
    exe_f = ck.build_async("stream", boost=True, files=True)
    big = ck.thorough
    recs, _ = ck.tlc("StreamMC", consts=dict(MaxOps=4 if big else 3, MaxItems=3, Sizes="{0, 2}"), invariants=["EmitInv", "Conserved", "Ends"])
    progs = list({json.dumps(r): r for r in recs}.values())
    progs.sort(key=json.dumps)
    if not big and len(progs) > 40000: progs = ck.rng.sample(progs, 40000)
    if len(progs) > 250000: progs = ck.rng.sample(progs, 250000)
    progs += [rand_ops(ck.rng) for _ in range(12000 if big else 2500)]
    cases = [(p, *realize(p, ck.rng)) for p in progs]
    out = ck.run_cases(exe_f.result(), cases, lambda c: c[1], min_chunk=300)
    tr, idx = [], []
    for n, ((p, line, own), o) in enumerate(zip(cases, out)):
        if o is None: continue
        ck.seen(line); parts = o.split(";")[:-1]
        if len(parts) != len(p):
            ck.violation("program", dict(program=line[:2000], observed=o[:2000])); continue
        ck.steps += len(p)
        try:
            marks, obs = {}, []
            for x, t, c in zip(p, parts, own):
                m = marks.setdefault(c, landmarks(x, c))
                obs.append(observe(x, t, c, m))
                for f in obs[-1]["from"]: m.add(f + obs[-1]["len"])
        except (ValueError, IndexError):
            ck.violation("program", dict(program=line[:2000], observed=o[:2000])); continue
        tr.append(dict(ops=[{k: x[k] for k in ("o", "i", "j", "n", "items", "off", "size")} for x in p], obs=obs)); idx.append(n)
    for lo in range(0, len(tr), 60000):
        for b in ck.validate("StreamTrace", tr[lo:lo + 60000], chunk=500):
            p, line, own = cases[idx[lo + b]]
            ck.violation("program", dict(program=line[:2000], observed=out[idx[lo + b]][:2000]))
    ck.sample(dict(program=cases[0][1], observed=out[0]))


main("C03", run)
