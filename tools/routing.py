"""Shared by R01, R02, R03: route tables of the specification against the real router."""
import itertools
from vlib import *

POOL = [("get", "/a"), ("any", "/a"), ("get", "/ab"), ("get", "/abc"), ("put", "/ab"), ("get", "/b"),
        ("get", "/{x}"), ("any", "/{y}"), ("get", "/a/{x}"), ("any", "/{x}/b"), ("get", "/#w"),
        ("any", "/a#w"), ("get", "/{x}/#w"), ("get", "/a/"), ("get", "/"), ("get", "/ac"),
        ("put", "/ab#v"), ("get", "/{z}")]
REQS = [(m, p) for m in ("get", "put") for p in
        ("", "/", "/a", "/ab", "/abc", "/abd", "/b", "/c", "/a/", "/a/b", "/a/c", "/c/b", "/c/d", "//", "//b", "/a/b/c", "/ac")]


def tlaseq(b): return "<<" + ",".join(str(x) for x in b) + ">>"


def consts(maxroutes, pool=POOL):
    return dict(Pool="<<" + ",".join('[m |-> "%s", p |-> %s]' % (m, tlaseq(p.encode())) for m, p in pool) + ">>",
                Reqs="<<" + ",".join('[m |-> "%s", path |-> %s]' % (m, tlaseq(p.encode())) for m, p in REQS) + ">>",
                MaxRoutes=maxroutes)


def tables(ck, maxroutes):
    recs, _ = ck.tlc("RouterMC", consts=consts(maxroutes), invariants=["Deterministic", "EmitInv"],
                     properties=["Local"] if maxroutes <= 3 else [])
    return recs


def rline(opt, routes, finds):
    return " ".join(["R", opt, str(len(routes))] + [t for m, p in routes for t in (m, hx(p))]
                    + [str(len(finds))] + [t for m, p in finds for t in (m, hx(p))])


def enc(p): return p.encode() if isinstance(p, str) else p


def pstxt(ps): return "".join(",%s=%s" % (hx(x["n"]), hx(x["v"])) for x in ps)


FREQS = [(m, p.encode()) for m, p in REQS]


def parse_router_out(o):
    """'ok dup | 0 3,n=v ...' -> (list, list of (id, text after id))"""
    a, b = o.split("|", 1)
    fs = []
    for f in b.split():
        if f in ("0", "err"):
            fs.append((0 if f == "0" else -1, ""))
        else:
            i = 0
            while i < len(f) and f[i].isdigit(): i += 1
            fs.append((int(f[:i] or -1), f[i:]))
    return a.split(), fs


SEGS = ["a", "b", "ab", "abc", "abd", "aa", "ba", "x", "api", "api2", "v1", "user", "users", "a.b", "a+c", "a*", "(a)", "$", "a$", "%41", "~", "a|b"[:1], "."]


def rand_pattern(rng):
    n = rng.randrange(0, 5); names = ["p%d" % i for i in range(8)]; rng.shuffle(names)
    weird = ["a-b", "1", "x.y", "q~", "n%41", "(z)", "a*"]
    s = ""
    for k in range(n):
        z = rng.random()
        s += "/" + ("{%s}" % (names[k] if rng.random() < .9 else rng.choice(weird) + str(k)) if z < .35 else "" if z < .4 else rng.choice(SEGS))
    z = rng.random()
    if z < .25: s += "/" + rng.choice(["", "", "a", "ab"]) + "#" + names[6]
    elif z < .35: s += "/"
    return s


def rand_path(rng, pats):
    if rng.random() < .8 and pats:
        p = rng.choice(pats)[1]
        out = ""
        i = 0
        while i < len(p):
            if p[i] == "{":
                i = (p.find("}", i) + 1) or len(p); out += rng.choice(["a", "b", "ab", "zz", "a.b", "a{b", "}", "user", "é", "%41", "a\nb"])
            elif p[i] == "#":
                i = len(p); out += rng.choice(["", "a", "b/c", "/", "/a/b", "zz", "bc", "{x}"])
            else:
                out += p[i]; i += 1
        if rng.random() < .25:
            k = rng.randrange(len(out) + 1); out = out[:k] + rng.choice(["/", "a", "b", "", "."]) + out[k + (rng.random() < .5):]
        return out.encode()
    return ("".join("/" + rng.choice(SEGS + [""]) for _ in range(rng.randrange(0, 5)))).encode()


MALFORMED = ["/{", "/a{x}", "/{}", "/#", "/a b", "/{x}y", "x#x", "/%4", "/{x}/{x}", "/{x}/#x", "/{x}/{y}/{x}", "/{x#y}", "/{x}#x",
             "/#a/b", "/#a#b", "/{a/b}", "/}", "/{{a}}", "/a}", "/%", "/%g0", "/%0g", "/{%4}", "/#%4", "a{", "/{x", "/a{"]


def odd_pattern(rng):
    """malformed patterns, and ones with every character a segment may or may not have"""
    z = rng.random()
    if z < .5: return rng.choice(MALFORMED)
    if z < .75:
        h = "0123456789abcdefABCDEF" + ("gG/:@`" if z < .6 else "")
        e = "%" + rng.choice(h) + rng.choice(h)
    else:
        e = chr(rng.randrange(33, 127))
    return rng.choice(["/%s", "/a%s", "/%sb/c", "/{%s}", "/{a%s}/x", "/#%s", "/b/#%sa"]) % e


def random_sets(ck, n, nroutes=(1, 14), nfinds=30):
    rng = ck.rng
    sets = []
    for _ in range(n):
        routes = []
        for _ in range(rng.randrange(*nroutes)):
            z = rng.random()
            if routes and z < .12: p = rng.choice(routes)[1]                         # duplicate
            elif routes and z < .2:                                                  # same shape, other names
                p = rng.choice(routes)[1].replace("p", "q") if "{" in rng.choice(routes)[1] else rand_pattern(rng)
            elif routes and z < .3:                                                  # prefix/extension of another
                p = rng.choice(routes)[1]
                if "#" not in p: p = p + rng.choice(["/", "a", "b", "/a"]) if not p.endswith("}") else p + "/a"
            elif z < .37: p = odd_pattern(rng)
            else: p = rand_pattern(rng)
            routes.append((rng.choice(["get", "get", "put", "post", "any"]), p))
        finds = [(rng.choice(["get", "get", "put", "patch"]), rand_path(rng, routes)) for _ in range(nfinds)]
        sets.append((rng.choice("0012"), [(m, enc(p)) for m, p in routes], finds))
    return sets


def to_record(s, o):
    """observed output -> record for PathsTrace"""
    opt, routes, finds = s
    res, fs = parse_router_out(o)
    if len(res) != len(routes) or len(fs) != len(finds): raise ValueError
    R = [dict(m=m, p=list(p), res=r) for (m, p), r in zip(routes, res)]
    F = []
    for (m, p), (i, t) in zip(finds, fs):
        if "!" in t: F.append(dict(m=m, path=list(p), id=i, ps=[dict(n=[], v=[33])])); continue
        ps = [x.split("=") for x in t.split(",")[1:]]
        F.append(dict(m=m, path=list(p), id=i, ps=[dict(n=list(unhx(a)), v=list(unhx(b))) for a, b in ps]))
    return dict(t="router", routes=R, finds=F)
