"""Generated handlers (spec/Extractors.tla): signatures and results as C++,
requests as bytes, answers as outcomes."""
import os, json
from vlib import *

CXX = dict(pt0="path_of<t0>", pt1="path_of<t1>", pt2="path_of<t2>", ps1="path_of<s1>", ps2="path_of<s2>", pinfo="const path_info&",
           q1="query_of<u1>", q2="query_of<u2>", q3="query_of<u3>", qmap="const query_map&", f1="form_of<u1>", f2="form_of<u2>",
           json="json_of<jt>", str="std::string", vec="std::vector<std::uint8_t>", chars="std::vector<char>", state="state_of<sta>",
           my="my_arg", conn="const connect_info&", ver="http::version", hdrs="const http::header_map&", req="request&", reqc="const request&")
BODY = {"f1", "f2", "json", "str", "vec", "chars"}
PATH = {"pt0", "pt1", "pt2", "ps1", "ps2", "pinfo"}
RETS = dict(response=("response", 'response::created().set_header("content-type", "text/html").set_body(%s)'), string=("std::string", "%s"),
            vector=("octets", "octets_of(%s)"), varS=("either", "either(%s)"), varV=("either", "either(octets_of(%s))"),
            expV=("maybe", "maybe(%s)"), expE=("maybe", "maybe(unexpected { own_error { %s } })"), own=("own", "own { %s }"))
PATTERNS = [[], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "c"]]
FIXED = dict(conn="c", ver="11", hdrs="q", req="POSTq", reqc="POSTq")
MSG = {"numbers": "numbers of key/value pairs are not expected.", "keys": "keys are not matched or value types are invalid.",
       "ctform": '"Content-Type: application/x-www-form-urlencoded" is expected.', "ctjson": '"Content-Type: application/json" is expected.',
       "read": "unable to read request body.", "format": "invalid format for request body.", "state": "unable to find state.", "my": "no x-my"}


def b(s):
    s = s.encode("latin1") if isinstance(s, str) else s
    return "<<" + ",".join(str(x) for x in s) + ">>"


VALS = ["7", "-1", "0", "127", "128", "255", "256", "-128", "true", "No", "x", "", "1 ", "+1", "07", "2147483648", "a&=%+"]
SVALS = ["7", "300", "1", ""]
FORMS = ["", "a=1", "a=1&b=2", "b=x&a=2", "a=2&b=x+y%26", "a=256&b=", "a=2", "a=2&a=3", "a=300&a=3&b=1", "b=&a=0", "a", "a&b=1", "a=&b=1", "=1", "a=1&&b=2",
         "a=%31", "%61=1", "a=%3", "a=%zz", "a=1&c=2", "a=1&b=2&c=3", "a=1&b=2&c", "a=-1", "a=-1&b=1", "a=2147483647", "a=2147483648", "a=1=2", "A=1", "a=1&", "&a=1"]
JSONS = [('{"a":5,"b":"x"}', "5/x"), ('  {"b":"\\u0041" , "a" : -3}\n', "-3/A"), ('{"a":5,"b":"x","c":[1]}', "5/x"), ('{"a":5}', ""), ('{"a":"5","b":"x"}', ""),
         ('{"a":5.5,"b":"x"}', ""), ("[1]", ""), ('{"a":5,"b":"x"', ""), ('{"a":5,"b":"x"} x', ""), ("nul", ""), ('{"a":5,"b":"x",}', ""), ('{"a":5,"b":null}', ""),
         ('{"b":"","a":9223372036854775807}', "9223372036854775807/"), ('{"b":"","a":9223372036854775808}', "")]


def signatures(ck):
    sigs = [[]] + [[k] for k in CXX]
    n = 40 if not ck.thorough else 150
    seen = set()
    while len(sigs) < n + len(CXX) + 1:
        k = ck.rng.choice([2, 2, 3, 3, 4])
        s = ck.rng.sample(sorted(CXX), k)
        if len(BODY & set(s)) > 1 or tuple(s) in seen: continue         # one body, one reader
        weak = {"conn", "ver", "hdrs", "req", "reqc", "pinfo", "qmap"}
        if len(weak & set(s)) > 1: continue
        seen.add(tuple(s)); sigs.append(s)
    rets = [sorted(RETS)[i % len(RETS)] for i in range(len(sigs))]
    ck.rng.shuffle(rets)
    return sigs, rets


def variants(sig):
    return (range(len(PATTERNS)) if PATH & set(sig) else [0]), ([0, 1] if "state" in sig else [0])


def cxx(part, sigs, rets):
    o = ['#include "extract.hpp"', "int main()", "{", "  net::io_context ioc;", "  auto b = http_server::builder(ioc);",
         "  b.set_exception_handler([](std::exception_ptr) { });"]
    for i in part:
        ty, ex = RETS[rets[i]]
        args = ", ".join("%s v%d" % (CXX[k], j) for j, k in enumerate(sigs[i]))
        vals = "all(%s)" % ", ".join("v%d" % j for j in range(len(sigs[i])))
        o.append("  auto h%d = [](%s) -> awaitable<%s> { co_return %s; };" % (i, args, ty, ex % vals))
        ps, ss = variants(sigs[i])
        for p in ps:
            for s in ss:
                o.append('  b.serve(route::post<"/h%d/%d/%d%s">(h%d)%s);' % (i, s, p, "".join("/{%s}" % n for n in PATTERNS[p]), i, ".use_state(sta { 7 })" if s else ""))
    o += ["  auto server = b.build();", "  return converse(ioc, server);", "}"]
    return "\n".join(o) + "\n"


def pct(bs, keep=b""):
    return "".join(chr(c) if chr(c).isalnum() and c < 128 or c in b"-._~" + keep else "%%%02X" % c for c in bs)


CT = dict(form=["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded"],
          json=["application/json", "application/json;charset=utf-8", "APPLICATION/JSON"],
          none=[None, "text/plain", "application/octet-stream", "application", "application/x-www-form", "application/jsonp", "application/json+x"])


def raw(c, sigs, rng):
    q = c["req"]; i = c["s"] - 1
    names = [bytes(x[0]).decode() for x in q["path"]]
    pi = PATTERNS.index(names)
    t = "/h%d/%d/%d" % (i, 1 if q["st"] else 0, pi) + "".join("/" + pct(x[1]) for x in q["path"])
    if q["query"]:
        t += "?" + "&".join("%s=%s" % (pct(n), pct(v).replace("%20", rng.choice(["+", "%20"]))) for n, v in q["query"])
    hs = ["Host: x", "Connection: close", "x-a: q"]
    if q["my"]: hs.append("X-My: 1")
    ct = rng.choice(CT[q["ct"]])
    if ct: hs.append("Content-Type: " + ct)
    rng.shuffle(hs)
    body = bytes(q["body"]["t"])
    if q["body"]["k"] == "bad":
        hs.append("Transfer-Encoding: chunked"); data = rng.choice([b"zz\r\nabc\r\n0\r\n\r\n", b"3\r\nabcd\r\n0\r\n\r\n", b"2\r\nab\r\nq\r\n", b"-1\r\n\r\n"])
    elif not body and rng.random() < 0.5:
        data = b""
    elif rng.random() < 0.5:
        hs.append("Content-Length: %d" % len(body)); data = body
    else:
        hs.append("Transfer-Encoding: chunked"); data = b""
        k = 0
        while k < len(body):
            n = rng.randint(1, len(body) - k); data += b"%x\r\n%s\r\n" % (n, body[k:k + n]); k += n
        data += b"0\r\n\r\n"
    return ("POST %s HTTP/1.1\r\n%s\r\n\r\n" % (t, "\r\n".join(hs))).encode("latin1") + data


def num(v):
    return ("-" if v["neg"] else "") + "".join(str(x) for x in v["d"])


def render(kind, v):
    if kind in FIXED: return FIXED[kind]
    if kind == "qmap": return ";".join(sorted("%s=%s" % (hx(bytes(k)), hx(bytes(x))) for k, x in v[0]["m"]))
    return ",".join(num(x) if x["k"] == "n" else x["j"] if x["k"] == "j" else hx(bytes(x["s"])) for x in v)


def expected(c, sigs):
    o = c["o"]
    if o["run"]:
        return dict(runs=1, status=o["status"], ct=o["msg"], body="|".join(["ran"] + [render(k, v) for k, v in zip(sigs[c["s"] - 1], o["vs"])]))
    return dict(runs=0, status=o["status"], ct="text/plain", body=MSG[o["msg"]])


def observed(line):
    runs, r = line.split(" ")
    r = unhx(r)
    head, _, body = r.partition(b"\r\n\r\n")
    hs = head.decode("latin1").split("\r\n")
    d = {h.split(":", 1)[0].lower(): h.split(":", 1)[1].strip() for h in hs[1:] if ":" in h}
    st = hs[0].split(" ")
    return dict(runs=int(runs), status=int(st[1]) if len(st) > 1 and st[1].isdigit() else hs[0], ct=d.get("content-type", ""), body=body.decode("latin1"))
