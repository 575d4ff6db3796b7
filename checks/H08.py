"""Requests, responses and test requests built step by step, and served."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

AUX = "localhost/localhost//req/{id}:%s:%s:7" % (hx(b"/req/x1"), hx(b"x1"))
TLEN = {"len": "sized:%d"}


def tla(x):
    if isinstance(x, bool): return "TRUE" if x else "FALSE"
    if isinstance(x, str): return '"%s"' % x
    if isinstance(x, list): return "<<%s>>" % ", ".join(map(tla, x)) if x else "<< >>"
    if isinstance(x, set): return "{%s}" % ", ".join(map(tla, sorted(x)))
    if isinstance(x, tuple): return "<<%s>>" % ", ".join(map(tla, x))
    return "[%s]" % ", ".join("%s |-> %s" % (k, tla(v)) for k, v in x.items())


def body(k, n, t): return dict(k=k, n=n, t=t)
START = dict(res=dict(st="200", ver="1.1", h=[], q=set(), b=body("null", "", ""), aux=""),
             tr=dict(st="<unknown>", ver="1.1", h=[], q=set(), b=body("null", "", ""), aux=""),
             req=dict(st="POST", ver="1.1", h=[dict(l="x-in", n="X-In", v="0"), dict(l="content-length", n="Content-Length", v="4")], q={("q", "0")}, b=body("sized", "len", "orig"), aux=AUX))


def hdrs(h):
    g = {}
    for e in h: g.setdefault(e["l"], []).append(e["v"])
    return ",".join("%s=%s" % (hx(n.encode()), hx(v.encode())) for n in sorted(g) for v in g[n]) or "."


def shown(kind, x):
    q = ",".join("%s=%s" % (hx(a.encode()), hx(b.encode())) for a, b in sorted(map(tuple, x["q"]))) or "."
    t = hx(x["b"]["t"].encode())
    if kind == "req": return " ".join([x["st"], x["ver"], hdrs(x["h"]), q, x["aux"], t])
    size = {"null": "null", "chunked": "chunked"}.get(x["b"]["k"]) or ("open" if x["b"]["n"] == "open" else "sized:%d" % len(x["b"]["t"]))
    return " ".join([x["st"], x["ver"], hdrs(x["h"]), q, size, t])


def unh(s): return "" if s == "-" else bytes.fromhex(s).decode("latin1")
def pairs(s): return [] if s == "." else [[unh(x) for x in p.split("=")] for p in s.split(",")]
def obs_of(w):
    size = w[4]
    return dict(st=w[0], ver=w[1], h=[dict(l=a, n=a, v=b) for a, b in pairs(w[2])], q=pairs(w[3]), aux=w[4] if "/" in w[4] else "", size="len" if size.startswith("sized:") else size, t=unh(w[5]),
                lenok=not size.startswith("sized:") or int(size[6:]) == len(unh(w[5])))


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("http", boost=True)
    rng = ck.rng
    names = '{<<"x-a", "X-A">>, <<"x-a", "x-a">>, <<"content-type", "Content-Type">>}'
    fs = {}
    for k in ("res", "req", "tr"):
        fs[k] = ck.tlc_async("BuilderMC", consts=dict(Kind='"%s"' % k, Stats='{"404", "299"}' if k == "res" else '{"PUT", "GET"}', Vers='{"1.0", "2.0"}', Names=names,
                             Values='{"1", "2"}' if T else '{"1"}', QNames='{"q"}', QValues='{"1", ""}', Texts='{"", "abc"}', MaxH=2 + (2 if k == "req" else 0), MaxLen=8 if T else 6,
                             Start=tla(START[k])), invariants=["Frame"], view="View", tag=k, workers=3, timeout=800)
    exe = exe_f.result()
    hows = "lrfF"
    def opt(i, o): return "%s %s %s %s" % (o["o"], hx(o["n"].encode()), hx(o["v"].encode()), hows[i % 4])
    for k, f in fs.items():
        out, _ = f.result()
        ck.traces += len(out)
        if len(out) > (400000 if T else 40000): out = rng.sample(out, 400000 if T else 40000)
        salt = {id(x): rng.randrange(4) for x in out}
        enc = lambda x: k + " " + " ".join(opt(i * 3 + salt[id(x)], o) for i, o in enumerate(x["ops"]))
        for x, o in zip(out, ck.run_cases(exe, out, enc)):
            if o is None: continue
            ck.steps += 1; ck.seen(enc(x))
            ck.expect(k, enc(x), shown(k, x["x"]), o.split(" | ")[0])
        ck.sample(dict(case=enc(out[-1]), built=out[-1]["x"]))
    # ---- long programs, and test requests through the server
    recs = []; lines = []
    hn = [("x-a", "X-A"), ("x-a", "x-a"), ("content-type", "Content-Type"), ("etag", "ETag"), ("accept", "Accept"), ("x-long-name", "X-Long-Name"), ("cookie", "Cookie"), ("set-cookie", "Set-Cookie")]
    vals = ["1", "2", "a b", "x, y", "", "q=\"z\"", "w" * 300]
    def R(o, l="", n="", v=""): return dict(o=o, d="a", l=l, n=n, v=v)
    def prog(kind, n, served):
        ops = []; ph = "building"
        while len(ops) < n:
            if ph == "built": ops.append(R("again")); ph = "building"; continue
            o = rng.choice(["st", "set", "set", "ins", "ins", "q", "fin"] + (["ver"] if not served and kind != "req" else []) + (["era"] if kind == "req" else []))
            if o == "st": ops.append(R("st", v=rng.choice(["200", "201", "404", "500"] + (["299"] if not served else []) if kind == "res" else ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "REPORT"])))
            elif o == "ver": ops.append(R("ver", v=rng.choice(["0.9", "1.0", "1.1", "2.0", "3.0"])))
            elif o == "q":
                if kind != "res": ops.append(R("q", n=rng.choice(["q", "p", "long", "r"]), v=rng.choice(["", "1", "a b", "x/y?z", "[é]"] if not served else ["", "1", "a b", "x/y?z", "a=b"])))
            elif o == "fin":
                f = rng.choice(["null", "text", "text", "bytes", "stream", "json", "jobj", "build"] + (["chunked"] if kind != "req" else []))
                if f in ("text", "bytes", "stream", "chunked"): ops.append(R(f, v=rng.choice(["", "abc", "hello world", "x" * 3000])))
                elif f == "json": ops.append(R(f, v=rng.choice(["j0", "j1", "j2", "j3"])))
                else: ops.append(R(f))
                ph = "built"
            elif o == "era": l, m = rng.choice(hn); ops.append(R("era", l, m))
            else:
                l, m = rng.choice(hn); v = rng.choice(vals)
                ops.append(R(o, l, m, v))
        return ops
    def enco(ops): return " ".join("%s %s %s %s" % (o["o"], hx(o["n"].encode()), hx(o["v"].encode()), rng.choice(hows)) for o in ops)
    st = {k: dict(v, q=[list(e) for e in v["q"]]) for k, v in START.items()}
    for i in range(4000 if T else 900):
        k = ("res", "req", "tr")[i % 3]; ops = prog(k, rng.randrange(8, 40), False)
        recs.append(dict(k=k, a=ops, start=st[k])); lines.append(k + " " + enco(ops))
    for i in range(12000 if T else 1500):
        a = prog("tr", rng.randrange(1, 14), True); b = prog("res", rng.randrange(1, 14), True)
        if not any(o["o"] == "st" for o in a): a = [R("st", v="POST")] + a
        path = rng.choice(["a", "a b", "%41", "x.y", "ü", "a+b", "~", "(q)", "a;b,c"])
        full = ("/srv/" + path).encode()
        aux = "localhost/localhost//srv/{id}:%s:%s:7" % (hx(full), hx(path.encode()))
        recs.append(dict(k="srv", a=a, b=b, start=dict(st["tr"], aux=aux), start2=st["res"]))
        lines.append("srv %s | %s | %s" % (hx(full), enco(a), enco(b)))
    # what a test request cannot say: each is listed in known_findings.txt if it fails
    def odd(key, a, b=None):
        b = b or [R("null")]
        recs.append(dict(k="srv", key=key, a=a, b=b, start=dict(st["tr"], aux="localhost/localhost//srv/{id}:%s:%s:7" % (hx(b"/srv/a"), hx(b"a"))), start2=st["res"]))
        lines.append("srv %s | %s | %s" % (hx(b"/srv/a"), enco(a), enco(b)))
    for n, v in (("a", "x&y"), ("a", "x+y"), ("a", "100%"), ("a", "%41"), ("a", "x&y=z"), ("a=b", "c"), ("a&b", "c"), ("a+b", "c"), ("%41", "c")):
        odd("served-query:%s=%s" % (n, v), [R("st", v="GET"), R("q", n=n, v=v)])
    for n, v in (("a", "x#y"), ("a", "é€"), ("a", "\"<>\\^`{|}"), ("ключ", "v"), ("a b", "c d"), ("", "v"), ("[]", "[1]")):
        odd("served", [R("st", v="GET"), R("q", n=n, v=v)])
    for v in ("1.0",): odd("served-version:" + v, [R("st", v="GET"), R("ver", v=v)])
    for v in ("299", "799"): odd("served-status:" + v, [R("st", v="GET")], [R("st", v=v)])
    def parse(k, o):
        s = o.split(" | ")
        if k == "srv":
            w = s[0].split(); x = s[1].split()
            if len(w) != 6 or len(x) != 4: return None
            return obs_of(w), dict(st=x[0], ver=x[1], h=[dict(l=a, n=a, v=b) for a, b in pairs(x[2])], t=unh(x[3]))
        w = s[0].split()
        return (obs_of(w), None) if len(w) == 6 else None
    tr = []; idx = []
    for i, (r, o) in enumerate(zip(recs, ck.run_cases(exe, lines, lambda l: l))):
        if o is None: continue
        ck.seen(lines[i]); ck.steps += 1
        p = None if o.startswith(("CRASH", "HANG")) else parse(r["k"], o)
        if p is None: ck.violation(r.get("key", "program-" + r["k"]), dict(case=lines[i], got=o)); continue
        if not p[0].pop("lenok"): ck.violation("size", dict(case=lines[i], got=o))
        r = dict(r, obs=p[0]); lat = lambda s: s.encode().decode("latin1")
        for ops in (r["a"], r.get("b", [])):
            for j, x in enumerate(ops): ops[j] = dict(x, n=lat(x["n"]), v=lat(x["v"]))
        if p[1]: r["obs2"] = p[1]
        tr.append(r); idx.append(i)
    for i in ck.validate("BuilderTrace", tr, chunk=60):
        ck.violation(tr[i].get("key", "program-" + tr[i]["k"]), dict(case=lines[idx[i]], obs=tr[i]["obs"], obs2=tr[i].get("obs2")))
    ck.traces += len(tr)
    ck.extra["rule"] = "every operation in every state of a builder (bounded headers and length) of each kind, replayed; %d random programs, test requests and responses through serve_request" % len(recs)


main("H08", run)
