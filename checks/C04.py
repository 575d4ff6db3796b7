"""static_file: every Range value and If-None-Match value of the bounds over
files of many sizes, histories of a changing file and a caching client, dates
and names of files (spec/StaticFile.tla); the real static_file opens real
files with those fields and status, fields and body are compared."""
import sys, os, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from textgen import *

LIMIT, EDGE = 200000, 65536
NAMES = [("f.txt", "text/plain"), ("f.html", "text/html"), ("a b.png", "image/png"), ("f.js", "application/javascript"), ("f.json", "application/json"),
         ("f.wasm", "application/wasm"), ("f.flv", "video/x-flv"), ("f.svgz", "image/svg+xml"), ("f.swf", "application/x-shockwave-flash"),
         ("f.xml", "application/xml"), ("plain", "application/octet-stream"), ("f.zzz", "application/octet-stream"), (".css", "text/css"),
         ("f.tar.css", "text/css"), ("f.css.bak", "application/octet-stream")]
STAMPS = [0, 1, 59, 86399, 86400, 784111777, 951782399, 951782400, 951868799, 951868800, 1078012800, 1230767999, 1483228799, 1483228800, 1709164800, 1709251199,
          1709251200, 1735689599, 2147483647, 2147483648, 4107542399, 4107542400]
_content = {}


def content(size, off, n):
    """the bytes the harness wrote there"""
    def one(i): return 0 if EDGE <= i < size - EDGE else (i * 131 + i // 256 * 17 + i // 65536 * 7) & 255
    if size <= 4 * EDGE:
        if size not in _content: _content[size] = bytes(one(i) for i in range(size))
        return _content[size][off:off + n]
    return bytes(one(i) for i in range(off, min(off + n, size)))


def num(d): return int("".join(map(str, d)))


def parse(o):
    st, fields, kind, n, crc, end, high = o.split(" ")
    f = [None if x == "?" else unhx(x[1:]).decode("latin1") for x in fields.split(",")[:-1]]
    return dict(zip(["etag", "lm", "ct", "cd", "ar", "cr"], f), st=int(st), kind=kind, n=int(n), crc=int(crc), end=end, high=int(high))


_crc = {}


def crc_of(size, off, n):
    k = (size, off, n)
    if k not in _crc: _crc[k] = zlib.crc32(content(size, off, n))
    return _crc[k]


def wrong(g, x, size, date=None):
    """why an answer is not the specified one"""
    a = x["a"]; st, off, n = a["st"], num(a["o"]), num(a["n"])
    if g["st"] != st: return "status"
    if st in (200, 206):
        if g["n"] != min(n, LIMIT) or g["crc"] != crc_of(size, off, min(n, LIMIT)): return "body"
        if g["end"] != ("end" if n < LIMIT else g["end"]) or g["end"] == "error": return "end of body"
        if not g["etag"] or not g["ct"] or not g["cd"]: return "fields"
        if g["high"] > off + n: return "reads beyond the interval"
    else:
        if g["n"] or g["end"] != "end": return "body bytes"
        if st == 304 and not g["etag"]: return "no entity tag"
    if st != 400 and (g["cr"] or "") != bytes(x["cr"]).decode(): return "content-range"
    if st in (206, 416) and g["ar"] != "bytes": return "accept-ranges"
    return None


def judge(ck, g, r, size, raw):
    why = [wrong(g, x, size) for x in r["as"]]
    if None in why: return True
    key = "answer"
    for x in r["as"]:                         # the recorded findings, and nothing beside them
        a = x["a"]
        if a["st"] == 206:
            o, n = num(a["o"]), num(a["n"])
            y = dict(x, cr=("bytes %d-%d/%d" % (o, o + n - 1, n)).encode())
            if n != size and wrong(g, y, size) is None: key = "content-range-total"
            first = re.match(r"\s*[^=]*=\s*0*(\d+)\s*-\s*0*(\d+)\s*(,|$)", raw or "")
            y = dict(a=dict(st=416, o=[0], n=[0]), cr=("bytes */%d" % size).encode())
            if first and int(first.group(1)) < size <= int(first.group(2)) and wrong(g, y, size) is None: key = "range-past-end"
    ck.violation(key, dict(why=why, size=size, range=raw, inm=r.get("inm"), expected=[dict(status=x["a"]["st"], offset=num(x["a"]["o"]), length=num(x["a"]["n"]),
                 content_range=bytes(x["cr"]).decode()) for x in r["as"]], observed=g))
    return False


def values(ck, exe, tag, recs):
    cases = []
    for i, r in enumerate(recs):
        size = num(r["t"])
        most = ck.rng.choice([1, 3, 1 << 40]) if size < 100 else ck.rng.choice([4096, 50000, 1 << 40])
        cases.append((r, "G f%d.bin %d 784111777 0 1 %s %s %d" % (i, size, hx(r["inm"][0]) if r["inm"] else ".", hx(r["rng"][0]) if r["rng"] else ".", most)))
    out = ck.run_cases(exe, cases, lambda c: c[1], min_chunk=200)
    ck.traces += len(cases)
    for (r, line), o in zip(cases, out):
        if o is None: continue
        ck.steps += 1; ck.seen((tag, line))
        try: g = parse(o)
        except (ValueError, IndexError): ck.violation("harness", dict(case=line, observed=o[:500])); continue
        judge(ck, g, r, num(r["t"]), bytes(r["rng"][0]).decode("latin1") if r["rng"] else None)
    ck.sample(dict(case=cases[-1][1], observed=out[-1]))


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("static", boost=True, files=True)
    digits = lambda n: "<<" + ",".join(str(n)) + ">>"
    q = lambda xs: "<<" + ",".join(xs) + ">>"
    small = [0, 1, 5, 10]
    mid = [300, 65536, 70000]
    huge = [2 ** 33 + 5, 2 ** 40]
    seeds = []
    for size, ns in ((300, [0, 1, 298, 299, 300, 301, 2 ** 64 - 1, 2 ** 64]), (70000, [0, 65535, 65536, 69999, 70000]), (2 ** 33 + 5, [1, 2 ** 32, 2 ** 33, 2 ** 33 + 4, 2 ** 33 + 5])):
        for a in ns:
            seeds += ["bytes=%d-" % a, "bytes=-%d" % a, "bytes=%d-%d, 0-1" % (a, a), "bytes=%d-%d,%d-" % (a, a + 3, a + 7)]
            for b in ns: seeds.append("bytes=%d-%d" % (a, b))
    edits = ["bytes=2-4", "bytes=1-2,4-", "bytes=-3", "BYTES=0-"]
    jobs = [("small", "range", small, gen("-,015", 6 if T else 5, prefix="bytes="), []),
            ("large", "range", mid + huge, gen("0", 0, sorted(set(seeds)), 0), []),
            ("edits", "range", [0, 5, 10], gen("0", 0, edits, 2 if T else 1, edit_alphabet="0=-,+ 9bx\t"), []),
            ("inm", "inm", [5], gen('"TW/,*', 6 if T else 5), ["none", "bytes=1-2", "bytes=9-"]),
            ("tags", "inm", [10], gen("0", 0, ['"T"', 'W/"T"', '"S","T"', '"S"', 'W/"S", W/"T"', '"a,b" , "T"', '*'], 2 if T else 1, edit_alphabet='"TSWx/, *\x80'), ["none", "bytes=2-4"])]
    stamp = lambda s: "<<%d,%d>>" % (s // 86400, s % 86400)
    common = lambda tot, beside: dict(Totals=q(map(digits, tot)), Beside=q("<<>>" if b == "none" else "<<%s>>" % tla_seq(b) for b in beside),
                                      Stamps=q(map(stamp, STAMPS)), Names=q('<<"%s","%s">>' % n for n in NAMES))
    futs = [(m, ck.tlc_async("StaticFileMC", init="InitG", next="NextG", tag=m, workers=2, invariants=["EmitInv", "Inside", "Validators"],
                             consts=dict(g, Mode='"%s"' % mode, **common(tot, be)))) for m, mode, tot, g, be in jobs]
    sf = ck.tlc_async("StaticFileMC", init="InitG", next="NextG", tag="stamps", workers=1, invariants=["EmitInv"], consts=dict(gen("0", 0), Mode='"stamp"', **common([1], [])))
    vers = [(5, 784111777), (5, 784111778), (6, 784111777)] + ([(0, 784111777)] if T else [])
    hf = ck.tlc_async("StaticHistMC", tag="histories", workers=2, invariants=["EmitInv", "Fresh"],
                      consts=dict(Versions=q("[n |-> %d, m |-> %d]" % v for v in vers), Ranges=q([tla_seq("bytes=1-3")]), Depth="5" if T else "4"))
    exe = exe_f.result()
    for m, f in futs: values(ck, exe, m, f.result()[0])
    # ---- dates and names
    recs, _ = sf.result()
    cases = [(r, n, aw, "G %s 5 %d %d %d . . 100" % (r["name"].replace(" ", "\x01"), r["day"] * 86400 + r["sec"], n, aw)) for r in recs for n, aw in ((0, 1), (999999999, 0))]
    out = ck.run_cases(exe, cases, lambda c: c[3])
    tags = {}
    for (r, n, aw, line), o in zip(cases, out):
        if o is None: continue
        ck.steps += 1; ck.seen(line)
        try: g = parse(o)
        except (ValueError, IndexError): ck.violation("harness", dict(case=line, observed=o[:500])); continue
        w = dict(st=200, lm=bytes(r["date"]).decode(), ct=r["ct"], cd=r["cd"], n=5, crc=crc_of(5, 0, 5), cr=None)
        got = {k: g[k] for k in w}
        if got != w: ck.violation("fields", dict(case=line, expected=w, observed=got))
        t = (r["day"], r["sec"])
        if tags.setdefault(g["etag"], t) != t: ck.violation("etag", dict(case=line, tag=g["etag"], times=[t, tags[g["etag"]]]))
        if not re.fullmatch('(W/)?"[!#-~\x80-\xff]+"', g["etag"] or ""): ck.violation("etag", dict(case=line, tag=g["etag"]))
    # ---- one tag, one version: sizes that agree in many digits
    sizes = sorted({0, 1, 16, 255} | {(k << b) + 5 for b in (4, 8, 12, 16, 20, 24, 31, 32, 33, 38) for k in (1, 2, 16)} | {10 ** k for k in range(1, 11)})
    pairs = [(z, t) for z in sizes for t in (784111777, 784111778, 784111777 + (1 << 32), 784111777 - 65536)]
    out = ck.run_cases(exe, pairs, lambda c: "G same.bin %d %d 0 1 . . 10" % c)
    for p, o in zip(pairs, out):
        if o is None: continue
        ck.steps += 1; ck.seen(p)
        try: g = parse(o)
        except (ValueError, IndexError): ck.violation("harness", dict(case=str(p), observed=o[:500])); continue
        if g["st"] != 200: ck.violation("fields", dict(case=str(p), observed=g))
        if tags.setdefault(g["etag"] + "same", p) != p: ck.violation("etag", dict(case=str(p), tag=g["etag"], other=tags[g["etag"] + "same"]))
    # ---- a file that changes and a client with copies
    recs, _ = hf.result()
    if len(recs) > 60000: recs = ck.rng.sample(sorted(recs, key=json.dumps), 60000)
    cases = []
    for i, r in enumerate(recs):
        v = vers[0]; l = ["H h%d.txt w 1 %d %d" % (i, v[0], v[1])]
        for e in r["h"]:
            if e["o"] == "set": l.append("w %d %d %d" % (e["v"], *vers[e["v"] - 1]))
            else:
                inm = ",".join(("W/" if e["weak"] else "") + '"%c"' % (64 + k) for k in e["ks"])
                l.append("a %c %s %s" % (64 + e["v"], hx(inm.encode()) if e["ks"] else ".", hx(b"bytes=1-3") if e["r"] else "."))
        cases.append((r, " ".join(l)))
    out = ck.run_cases(exe, cases, lambda c: c[1], min_chunk=200)
    ck.traces += len(cases)
    for (r, line), o in zip(cases, out):
        if o is None: continue
        ck.seen(line)
        asks = [e for e in r["h"] if e["o"] == "ask"]; got = o.split(";")[:-1]
        if len(got) != len(asks): ck.violation("harness", dict(case=line, observed=o[:500])); continue
        known = {}
        for e, g in zip(asks, got):
            ck.steps += 1
            g = parse(g); size = vers[e["v"] - 1][0]
            if not judge(ck, g, dict(e, inm=[line]), size, "bytes=1-3" if e["r"] else None): break
            if g["etag"] and known.setdefault(g["etag"], e["v"]) != e["v"]: ck.violation("etag", dict(case=line, tag=g["etag"])); break
    ck.sample(dict(case=cases[-1][1], observed=out[-1]))
    ck.extra["rule"] = "all Range values over the alphabet up to the length x sizes %s; boundary values and pairs x sizes %s; edits of 4 values; all If-None-Match values over the alphabet beside 3 ranges, edits of 7; %d stamps x %d names; all histories of a changing file and a client with copies" % (small, mid + huge, len(STAMPS), len(NAMES))


main("C04", run)
