"""A handler receives the request exactly as sent, whatever framing or segmentation."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from session import *
from wirecheck import *
from textgen import tla_seq


def fld(n, v, a=" ", b=""): return "[n |-> %s, v |-> %s, a |-> %s, b |-> %s]" % (q(n), q(v), q(a), q(b))
def q(s): return tla_seq(s) if s else "<< >>"
def lst(xs): return "<<" + ", ".join(xs) + ">>" if xs else "<< >>"


def req(m="GET", t="/see/x", v=11, hs=(), fr="none", chunks=(), ext="", trl=()):
    return "[m |-> %s, t |-> %s, v |-> %d, hs |-> %s, fr |-> \"%s\", chunks |-> %s, ext |-> %s, trl |-> %s]" % (
        q(m), q(t), v, lst([HOST] + list(hs)), fr, lst([q(c) for c in chunks]), q(ext), lst(list(trl)))


HOST = fld("Host", "h")
HEADERS = [(), (fld("A", "1"), fld("a", "2"), fld("B", "3"), fld("A", "4")), (fld("x-empty", "", "", ""),), (fld("X-Ows", "a b", "\t  ", " \t"),),
           (fld("x", "a, b"), fld("Accept", "*/*"), fld("x", "c")), (fld("X-Obs", "\xe9\xff\x80"),), (fld("!#$%&'*+-.^_`|~9z", ":=;,\"()"),),
           (fld("Cookie", "a=b; c=d"), fld("cookie", "e=f"), fld("Set-Cookie", "1"), fld("SET-COOKIE", "2"), fld("set-cookie", "1")),
           (fld("Connection", "close"),), (fld("connection", "Keep-Alive"),), (fld("x-long", "v" * 900),), (fld("Content-Type", "text/plain"), fld("X-" + "n" * 200, "1"))]
TARGETS = ["/see/", "/see/x", "/see/a/b/c", "/see/%2F%20%41%c3%a9", "/see/a.b*c!$&'()+,;=:@-_~", "/see//", "/see/%00", "/see/x?", "/see/x?a=1", "/see/x?a=1&b=2&a=3", "/see/x?a=&=b&c=d=e",
           "/see/x?k%20y=v%26%3D%2B%25", "/see/x?a+b=c+d", "/see/x?a&b=1&&c=2", "/see/x?a=/?:@!$'()*,;-._~", "/other", "/do%2Fx%2Fy", "/%73ee/x", "/see%2Fx", "/see/x%3Fa=1", "/see/x?a=1?b=2"]
METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "PROPFIND", "M-SEARCH", "UNLINK", "FOO", "get"]
BODIES = [("cl", ()), ("cl", ("a",)), ("cl", ("abc\r\n\r\nGET / HTTP/1.1\r\n\r\n",)), ("cl", (bytes(range(0, 256, 5)).decode("latin1"),)), ("ch", ()), ("ch", ("a",)), ("ch", ("0\r\n\r\n", "\r\n", "b")), ("ch", ("x" * 17, "y" * 16, "z"))]
EXT = ["", ";a=b", ";q=\"x;y\""]
TRL = [(), (fld("X-T", "v"),)]
NEXT = [req(t="/see/next", hs=(fld("x", "1"),)), req("POST", "/see/np?n=1", fr="cl", chunks=("tail",)), req("PUT", "/see/nc", fr="ch", chunks=("ta", "il"))]


def plans(T):
    r = [req(m, t) for m in METHODS for t in (TARGETS if m == "GET" or T else TARGETS[:2])]
    r += [req("POST", "/see/h", v, hs, fr, ch) for v in (11, 10) for hs in HEADERS for fr, ch in (BODIES if v == 11 else BODIES[:4])] 
    r += [req("POST", "/see/h", 10, hs) for hs in HEADERS]
    r += [req("POST", "/see/c", 11, (), "ch", ch, e, t) for fr, ch in BODIES if fr == "ch" for e in EXT for t in TRL]
    r += [req(m, "/see/b", 11, (), fr, ch) for m in METHODS[:11] for fr, ch in (BODIES if T else BODIES[1:6:2])]
    return sorted(set(r))


def sizes(T):
    S = [1, 2, 65535, 65536, 65537, 131071, 131072, 131073] + ([65534, 65538, 196607, 196608, 196609, 262144, 300001] if T else [])
    k = [kind("cl%d" % n, fr="cl", sz=[n], rd="all", bk="sized", evil=False) for n in S]
    k += [kind("cl%d+%d" % (a, b), fr="cl", sz=[a, b], rd="all", bk="sized", evil=False) for a in S[:5] for b in (1, 65536)]
    k += [kind("ch%d" % n, fr="ch", sz=[n], rd="all", bk="sized", evil=False) for n in S]
    k += [kind("ch%d+%d" % (a, b), fr="ch", sz=[a, b], rd="all", bk="sized", evil=False) for a in S[:6] for b in (1, 65535, 65536, 65537)]
    k += [kind("ch3x%d" % a, fr="ch", sz=[a, a, 1], rd="all", bk="sized", evil=False) for a in S[1:6]]
    k += [kind("one%d" % n, fr=f, sz=[n, 1], rd="one", bk="sized", evil=False) for f, n in (("cl", 65536), ("ch", 65535), ("cl", 7))]
    k += [kind("str%d" % n, fr=f, sz=[n, 1], tgt="str", rd="all", bk="sized", evil=False) for f, n in (("cl", 65536), ("ch", 65535), ("cl", 7))]
    return k


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True)
    head_f = [ck.tlc_async("WireMC", consts=dict(Reqs="{" + ", ".join(plans(T)) + "}", Tails=t), invariants=["RoundTrip", "EmitInv"], tag=g, workers=4)
              for g, t in (("every request alone", "{<< >>}"), ("pipelined before another", "{" + ", ".join("<<%s>>" % n for n in (NEXT if T else NEXT[1:2])) + "}"))]
    ks = sizes(T)
    size_f = ck.pool.submit(generate, ck, seqs(ks, 1, 1), 1, 3, True, "body sizes, every split and cut")
    follow = [kind("get", bk="sized")]
    next_f = ck.pool.submit(generate, ck, product(ks, follow), 1, 1, False, "body sizes, pipelined")
    exe = exe_f.result()
    for tag, f in zip(("alone", "pipelined"), head_f):
        cases = f.result()[0]
        for c in cases:
            n = len(c["b"])
            c["cuts"] = sorted(ck.rng.sample(range(1, n), min(n - 1, ck.rng.randrange(4))))
        run_wire(ck, exe, cases, tag=tag)
        if tag == "pipelined":
            pick = [c for c in cases if 150 < len(c["b"]) < 260]
            pick = ck.rng.sample(pick, min(len(pick), 40 if T else 8))
            every = [dict(c, cuts=[i]) for c in pick for i in range(1, len(c["b"]))] + [dict(c, cuts=list(range(1, len(c["b"])))) for c in pick[:4]]
            run_wire(ck, exe, every, tag="every single cut")
            # the client ends at every byte
    run_all(ck, exe, size_f.result(), ks, tag="sizes")
    run_all(ck, exe, next_f.result(), ks + follow, tag="sizes, pipelined")
    ck.extra["rule"] = "13 methods x targets, 12 header lists x 8 bodies x 2 versions, chunk extensions and trailers, alone and pipelined, random cuts and every single cut; body sizes around multiples of 65536 in both framings, in every split into up to 3 segments and cut short at every unit"


main("S03", run)
