"""query_map as a map; the decoding of query strings and urlencoded forms."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *


def pairs(s):
    if s == ".": return []
    return [[list(bytes.fromhex(x if x != "-" else "")) for x in p.split("=")] for p in s.split(",")]
def text(b): return bytes(b).decode("latin1")
def unh(s): return "" if s == "-" else bytes.fromhex(s).decode("latin1")


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("query", boost=True)
    rng = ck.rng
    # ---- the map: every operation in every state of two maps
    f1 = ck.tlc_async("QueryMapMC", consts=dict(Names='{"", "a", "b"}' if T else '{"a", "b"}', Values='{"", "1", "2"}'),
                      invariants=["Maps", "Laws"], view="View", tag="map", workers=4)
    # ---- texts
    al = "{37, 38, 43, 52, 61, 97}"          # % & + 4 = a
    g = dict(EditAlphabet="{37, 38, 43, 61, 35, 32, 98, 91, 0, 255, 47, 66}", Prefix="<< >>")
    seeds = [b"a=1&b=2", b"a=%41%42+c&A=x", b"x=%3D%26&y=%25", b"k=%00%ff", b"==&=&&a", b"a=1&%61=2&a=3", b"q=a/b?c:d@e!$'()*,;"]
    f2 = ck.tlc_async("QueryTextMC", consts=dict(Alphabet=al, MaxLen=7 if T else 5, Seeds="{%s}" % ", ".join(tla_seq(s) for s in seeds), MaxEdits=2 if T else 1, **g),
                      invariants=["EmitInv", "RoundTrip", "Unique", "Local"], tag="text", workers=4, timeout=800)
    exe = exe_f.result()
    out, _ = f1.result()
    ck.traces += len(out)
    def enc(x): return "ops " + " ".join(" ".join([o["o"], o["d"], hx(o["n"].encode()), hx(o["v"].encode()), hx(o["w"].encode())]) for o in x["ops"])
    def sh(m): return ",".join("%s=%s" % (hx(a), hx(b)) for a, b in sorted((a.encode(), b.encode()) for a, b in m)) or "."
    def res(r): return "." if r == "" else r if r[0] != "=" else "=" + hx(r[1:].encode())
    for x, o in zip(out, ck.run_cases(exe, out, enc)):
        if o is None: continue
        ck.steps += 1; ck.seen(enc(x))
        ck.expect("map", enc(x), "%s %s %s 0" % (res(x["res"]), sh(x["a"]), sh(x["b"])), " ".join(o.split()[-4:]))
    ck.sample(dict(case=enc(out[-1]), a=sh(out[-1]["a"])))
    out, _ = f2.result()
    ck.traces += len(out)
    enc = lambda x: "text " + hx(bytes(x["t"]))
    for x, o in zip(out, ck.run_cases(exe, out, enc)):
        if o is None: continue
        ck.steps += 1; ck.seen(enc(x))
        want = ",".join("%s=%s" % (hx(a), hx(b)) for a, b in sorted((bytes(a), bytes(b)) for a, b in x["m"])) or "."
        got = o.split()
        for how, y in zip(("query", "form"), got if len(got) == 2 else [o, o]):
            if y == "refused" and x["may"]: continue
            ck.expect("text-" + how, enc(x), want if x["ok"] else "refused", y)
    ck.sample(dict(case=text(out[-1]["t"]), means=out[-1]["m"]))
    # ---- long texts and long histories, judged by TLC
    recs = []; lines = []
    for i in range(20000 if T else 1500):
        ps = []
        for _ in range(rng.randrange(0, 9)):
            name = rng.choice([b"a", b"b", b"", b"name", "ключ".encode(), b"a b", bytes(rng.randrange(256) for _ in range(rng.randrange(5)))])
            val = bytes(rng.randrange(256) for _ in range(rng.randrange(8))) if rng.random() < .5 else rng.choice([b"", b"1", b"x=y", b"%41", b"+"])
            e = lambda b: b"".join(bytes([c]) if chr(c).isalnum() and c < 128 and rng.random() < .9 else (b"+" if c == 32 and rng.random() < .5 else b"%%%02x" % c if rng.random() < .5 else b"%%%02X" % c) for c in b)
            ps.append(e(name) + (b"=" + e(val) if rng.random() < .9 else b""))
        t = b"&".join(ps)
        if rng.random() < .2 and t:
            k = rng.randrange(len(t)); t = t[:k] + rng.choice([b"", b"%", b"&", b"=", b"+", bytes([rng.randrange(256)])]) + t[k + 1:]
        recs.append(dict(k="text", t=list(t))); lines.append("text " + hx(t))
    nt = len(recs)
    for i in range(3000 if T else 300):
        ops = []
        names = ["a", "b", "c", "", "long-name-%d" % (i % 7)]
        for _ in range(rng.randrange(5, 60)):
            o = rng.choice(["set"] * 4 + ["idx", "via", "idr", "get", "cgt", "at", "cat", "has", "era", "era", "cpy", "swp", "slf", "eq", "ini"] + (["clr"] if rng.random() < .3 else []))
            n = rng.choice(names); v = rng.choice(["", "1", "2", "value"]) if o in ("set", "idx", "via", "ini") else ""
            if o in ("clr", "cpy", "slf", "eq", "swp"): n = ""
            ops.append(dict(o=o, d="a" if o == "swp" else rng.choice("ab"), n=n, v=v, w=rng.choice(names) if o == "ini" else ""))
        recs.append(dict(k="ops", ops=ops)); lines.append("ops " + " ".join(" ".join([o["o"], o["d"], hx(o["n"].encode()), hx(o["v"].encode()), hx(o["w"].encode())]) for o in ops))
    tr = []; idx = []
    for k, (r, o) in enumerate(zip(recs, ck.run_cases(exe, lines, lambda l: l))):
        if o is None: continue
        ck.seen(lines[k])
        if o.startswith(("CRASH", "HANG")): ck.violation("crash", dict(case=lines[k], got=o)); continue
        w = o.split()
        if r["k"] == "text":
            for how, y in (("q", w[0]), ("f", w[1])): r[how] = dict(ok=y != "refused", m=pairs(y) if y != "refused" else [])
        else:
            sm = lambda s: [[unh(x) for x in p.split("=")] for p in s.split(",")] if s != "." else []
            r["obs"] = [dict(res="" if w[j] == "." else "=" + unh(w[j][1:]) if w[j][0] == "=" else w[j], a=sm(w[j + 1]), b=sm(w[j + 2]), bad=int(w[j + 3])) for j in range(0, len(w), 4)]
            ck.steps += len(r["obs"])
        tr.append(r); idx.append(k)
    for i in ck.validate("QueryTrace", tr, chunk=60):
        ck.violation("trace-" + tr[i]["k"], dict(case=lines[idx[i]], observed={k: v for k, v in tr[i].items() if k != "ops"}))
    ck.traces += len(tr)
    ck.extra["rule"] = "every operation in every state of two maps over the given names; every text over %s up to %d bytes and the edits of %d seeds; %d random texts, %d random histories" % (al, 7 if T else 5, len(seeds), nt, len(recs) - nt)


main("H07", run)
