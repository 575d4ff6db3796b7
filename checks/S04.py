"""Malformed, oversized and unroutable requests are refused as documented."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from session import *
from wirecheck import *
from stalls import *
from textgen import tla_seq, tla_set, chars

SEEDS = ["GET /see/x?a=1 HTTP/1.1\r\nHost: h\r\n\r\n", "POST /see/p HTTP/1.1\r\ncontent-length: 3\r\n\r\nabcGET /see/z HTTP/1.0\r\n\r\n",
         "POST /see/c HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\n3;a\r\nabc\r\n0\r\nT: v\r\n\r\nPUT /see/z HTTP/1.1\r\nConnection: close\r\n\r\n"]
EXTRA = ["", "\r\n", "GET\r\n\r\n", "GET /see/x\r\n\r\n", "GET  /see/x HTTP/1.1\r\n\r\n", "GET http://h/see/x HTTP/1.1\r\n\r\n", "OPTIONS * HTTP/1.1\r\n\r\n", "GET see/x HTTP/1.1\r\n\r\n", "GET /see/x#f HTTP/1.1\r\n\r\n", "GET /see/%zz HTTP/1.1\r\n\r\n",
         "GET /see/% HTTP/1.1\r\n\r\n", "GET /see/%4 HTTP/1.1\r\n\r\n", "GET /see/x?%zz=1 HTTP/1.1\r\n\r\n", "GET /see/\xe9 HTTP/1.1\r\n\r\n", "GET /see/\"x\" HTTP/1.1\r\n\r\n", "GET /see/<x> HTTP/1.1\r\n\r\n", "GET /see/a|b HTTP/1.1\r\n\r\n", "GET /see/[x] HTTP/1.1\r\n\r\n",
         "GET //see/x HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "GET /se HTTP/1.1\r\n\r\n", "GET /see HTTP/1.1\r\n\r\n", "GET /SEE/x HTTP/1.1\r\n\r\n", "DELETE /see%2fx HTTP/1.1\r\n\r\n", "GET /nope?x=/see/x HTTP/1.1\r\n\r\n",
         "GET /see/x HTTP/1.2\r\n\r\n", "GET /see/x HTTP/2.0\r\n\r\n", "GET /see/x http/1.1\r\n\r\n", "GET /see/x HTTP/1.1 \r\n\r\n", "G@T /see/x HTTP/1.1\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",
         "POST /see/x HTTP/1.1\r\ncontent-length: -1\r\n\r\n", "POST /see/x HTTP/1.1\r\ncontent-length: +1\r\n\r\na", "POST /see/x HTTP/1.1\r\ncontent-length: 0x1\r\n\r\na", "POST /see/x HTTP/1.1\r\ncontent-length: 1 1\r\n\r\na",
         "POST /see/x HTTP/1.1\r\ncontent-length: 99999999999999999999999\r\n\r\na", "POST /see/x HTTP/1.1\r\ncontent-length:\r\n\r\na", "POST /see/x HTTP/1.1\r\ncontent-length: 1\r\ncontent-length: 2\r\n\r\nab",
         "POST /see/x HTTP/1.1\r\ncontent-length: 3\r\ntransfer-encoding: chunked\r\n\r\n0\r\n\r\n", "POST /see/x HTTP/1.1\r\ntransfer-encoding: chunked\r\ncontent-length: 3\r\n\r\n0\r\n\r\n",
         "POST /see/x HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\n-1\r\n\r\n", "POST /see/x HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\nffffffffffffffffffff\r\nab", "POST /see/x HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\n1\r\nab\r\n0\r\n\r\n",
         "POST /see/x HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\n1\r\na", "POST /see/x HTTP/1.1\r\ncontent-length: 5\r\n\r\nabc", "GET /see/x HTTP/1.1\r\n: x\r\n\r\n", "GET /see/x HTTP/1.1\r\nno colon\r\n\r\n", "GET /see/x HTTP/1.1\r\na : b\r\n\r\n", "GET /see/x HTTP/1.1\r\na: \x00\r\n\r\n"]


LIM = 2000          # body limit
HL = 600            # header limit
SMALL = [kind("get", bk="sized"), kind("post", fr="cl", sz=[9, 40], rd="all", bk="sized")]


def body_kinds():
    r = []
    for n in (LIM - 1, LIM, LIM + 1, LIM + 2, 3 * LIM):
        for fr, szs in (("cl", [[n]]), ("ch", [[n], [LIM - 100, n - LIM + 100], [n - 1, 1]])):
            for z, sz in enumerate(szs):
                for rd in ("all", "one", "no"):
                    r.append(kind("b%d%s%d%s" % (n, fr, z, rd), fr=fr, sz=sz, rd=rd, over=n > LIM, limit=LIM, bk="sized"))
                r.append(kind("b%d%s%dstr" % (n, fr, z), fr=fr, sz=sz, tgt="str", over=n > LIM, limit=LIM, bk="sized"))
    return r


def head_kinds():
    r = []
    # between the limit and twice the limit either answer is allowed: the parser
    # counts only what it has not consumed yet
    for n in (HL - 200, HL - 1, HL, 2 * HL + 600, 4 * HL, 50 * HL):
        for name, kw in (("g", {}), ("p", dict(fr="cl", sz=[20], rd="all")), ("n", dict(tgt="none")), ("c", dict(conn="close"))):
            r.append(kind("h%d%s" % (n, name), headsize=n, hs="big" if n > HL else "ok", bk="sized", **kw))
    r += [kind("many", hdr=["a%d: %s" % (i, "v" * 40) for i in range(60)], hs="big", bk="sized"), kind("target", path="/do?" + "q" * 3000, hs="big", bk="sized")]
    return r


EXP = [kind("e-" + n, exp=e, bk="sized", **kw) for n, e, kw in (
    ("cl", True, dict(fr="cl", sz=[10, 20], rd="all")), ("ch", True, dict(fr="ch", sz=[10, 20], rd="all")), ("ci", True, dict(fr="cl", sz=[30], rd="all", exphdr="EXPECT: 100-Continue")),
    ("none", True, dict(tgt="none", fr="cl", sz=[10])), ("bad", True, dict(tgt="bad", fr="cl", sz=[10])), ("deny", True, dict(tgt="deny", fr="cl", sz=[10])), ("nobody", True, dict()),
    ("unread", True, dict(fr="cl", sz=[10])), ("close", True, dict(fr="cl", sz=[10], rd="all", conn="close")), ("other", False, dict(fr="cl", sz=[10], rd="all", hdr=["Expect: 200-ok"])), ("str", True, dict(tgt="str", fr="cl", sz=[10])))]
BIG = [kind("n-cl", fr="cl", sz=[3000000], rd="all", bk="sized", evil=False), kind("n-ch", fr="ch", sz=[1500000, 1500000], rd="all", bk="sized", evil=False), kind("n-head", headsize=30000, bk="sized")]
DEF = [kind("d-in", fr="cl", sz=[1048576], rd="all", bk="sized", evil=False), kind("d-ch", fr="ch", sz=[1048575, 1], rd="all", bk="sized", evil=False), kind("d-over", fr="cl", sz=[1048577], rd="all", bk="sized", over=True, limit=1048576, evil=False),
       kind("d-chover", fr="ch", sz=[1048576, 1], rd="all", bk="sized", over=True, limit=1048576, evil=False), kind("d-head", headsize=8192, bk="sized"), kind("d-hover", headsize=17000, hs="big", bk="sized")]


def main_wire(ck, exe, f, tag):
    cases = f.result()[0]
    seen, out = set(), []
    for c in cases:
        k = bytes(c["b"])
        if k in seen: continue
        seen.add(k)
        n = len(k)
        c["cuts"] = sorted(ck.rng.sample(range(1, n), min(n - 1, ck.rng.randrange(3)))) if n > 1 else []
        out.append(c)
    run_wire(ck, exe, out, tag=tag)


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True)
    alpha = "\r\n :%?/x\x00\x7f;0" if not T else "\r\n :%?/#x\x00\x7f\x80;,0f+-\"\tGH.1"
    edit_f = ck.tlc_async("WireEditMC", consts=dict(Seeds=tla_set(tla_seq(s) for s in SEEDS), EditAlphabet=chars(alpha)), invariants=["EmitInv"], tag="streams within one edit of well-formed ones", workers=6)
    extra_f = ck.tlc_async("WireEditMC", consts=dict(Seeds=tla_set([tla_seq(s) if s else "<< >>" for s in EXTRA]), EditAlphabet="{}"), invariants=["EmitInv"], tag="malformed streams and their prefixes", workers=4)
    B, H = body_kinds(), head_kinds()
    g = lambda *a: ck.pool.submit(generate, ck, *a)
    jobs = [("body limit", ",body=%d" % LIM, B + SMALL, g(product(B, SMALL[:1]), 1, 3 if T else 2, False, "bodies around the limit")),
            ("header limit", ",header=%d" % HL, H + SMALL, g(product(H, SMALL[:1]), 1, 2, True, "header blocks around the limit")),
            ("header limit later", ",header=%d" % HL, H + SMALL, g(product(SMALL, H, SMALL[:1]), 1, 1, False, "header blocks around the limit, later on the connection")),
            ("expect", "", EXP + SMALL, g(product(EXP, SMALL[:1] + EXP[:1]), 1, 3, T, "Expect: 100-continue")),
            ("no limits", ",body=0,header=0", BIG + SMALL, g(product(BIG, SMALL[:1]), 1, 1, False, "limits turned off")),
            ("defaults", "", DEF + SMALL, g(product(DEF, SMALL[:1]), 1, 1, False, "default limits"))]
    stall_f = ck.tlc_async("Stall", consts=dict(Kinds=stall_kinds(), MaxReqs=2, Timeout=10, Gaps="{0, 6, 30}"), invariants=["OnTime", "Served", "Ends", "EmitInv"], tag="stalling clients", workers=2)
    exe = exe_f.result()
    main_wire(ck, exe, extra_f, "malformed")
    main_wire(ck, exe, edit_f, "edits")
    for tag, conf, ks, f in jobs:
        cases = f.result()
        run_all(ck, exe, cases, ks, conf=conf, tag=tag)
        ck.sample(dict(script=cases[-1][0], history=cases[-1][1], outcomes=cases[-1][2]))
    recs = sorted(stall_f.result()[0], key=json.dumps)
    short = [r for r in recs if len(r["s"]) == 1]
    rest = [r for r in recs if len(r["s"]) > 1]
    stalls(ck, exe, short + (rest if T else ck.rng.sample(rest, min(len(rest), 160))))
    ck.extra["rule"] = "every stream within one edit of three well-formed ones and every prefix of %d malformed ones, judged by the decoder of Wire.tla; header blocks and bodies around their limits in both framings and all read behaviours; Expect with a waiting client; every stall point of 1..2 requests" % len(EXTRA)


main("S04", run)
