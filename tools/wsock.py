"""Websocket clients: binds spec/WebSocket.tla and spec/Upgrade.tla to the real server."""
import base64, hashlib, json, os, shutil, struct, tempfile, multiprocessing as mp
from vlib import *
from wire import *

F = {}
def frame(k, o, fin=True, op="e", **kw):
    F[k] = dict(k=k, o=o, fin=fin, op=op, **kw)
for n, o in (("T", "text"), ("B", "bin")):
    frame(n + "e", o); frame(n + "f", o, fin=False)
    for op in "s2pncqt": frame(n + op, o, op=op)
    frame(n + "fs", o, fin=False, op="s"); frame(n + "f2", o, fin=False, op="2"); frame(n + "fc", o, fin=False, op="c")
frame("c0", "cont", fin=False); frame("c1", "cont")
frame("ping", "ping"); frame("ping0", "ping", size=0); frame("ping125", "ping", size=125); frame("pong", "pong")
for code in (1000, 1001, 3000): frame("cl%d" % code, "close", code=code)
frame("cl", "close", code=None)
frame("half", "half")
frame("rsv", "bad", bad="rsv"); frame("unmasked", "bad", bad="unmasked"); frame("op3", "bad", bad="op3"); frame("op11", "bad", bad="op11")
frame("utf8", "badtext", bad="utf8"); frame("ping126", "bad", bad="ping126"); frame("pingnf", "bad", bad="pingnf"); frame("close1", "bad", bad="close1")
frame("badcode", "bad", bad="badcode")
BIG = [(k + "+%d" % n, F[k], n) for k in ("Te", "Be", "Ts", "B2", "Tf", "c0", "c1") for n in (125, 126, 127, 4096, 65535, 65536, 65537, 300000)]
for k, f, n in BIG: F[k] = dict(f, k=k, size=n)

SIZES = [0, 1, 3, 7, 20, 124]
U = "aé€z𝄞b".encode()


def payload(k, i, seed):
    """payload of the i-th frame of a script"""
    f = F[k]
    n = f.get("size", SIZES[(seed + i * 5 + len(k)) % len(SIZES)])
    first = f["o"] in ("text", "bin")
    pre = f["op"].encode() if first else b""
    if f["op"] == "n" and first: return b"" if seed % 2 else b"n" + pattern(i, n)
    if f["op"] == "c" and first: return b"c%d" % (seed % 4)
    return pre + pattern(i * 100, n)


def enc(op, data, fin=True, mask=True, rsv=0):
    b = bytes([(0x80 if fin else 0) | rsv | op])
    m = 0x80 if mask else 0
    n = len(data)
    b += bytes([m | n]) if n < 126 else bytes([m | 126]) + struct.pack(">H", n) if n < 65536 else bytes([m | 127]) + struct.pack(">Q", n)
    if not mask: return b + data
    key = b"\x37\xfa\x21\x3d"
    x = int.from_bytes(data, "big") ^ int.from_bytes((key * (n // 4 + 1))[:n], "big") if n else 0
    return b + key + x.to_bytes(n, "big")


def bytes_of(k, p):
    f = F[k]
    o = f["o"]
    if o in ("bad", "badtext"):
        b = f["bad"]
        return {"rsv": lambda: enc(1, b"e", rsv=0x40), "unmasked": lambda: enc(1, b"ehello", mask=False), "op3": lambda: enc(3, b"e"), "op11": lambda: enc(11, b""),
                "utf8": lambda: enc(1, b"e\xff\xfe"), "ping126": lambda: enc(9, b"x" * 126), "pingnf": lambda: enc(9, b"", fin=False), "close1": lambda: enc(8, b"\x03"),
                "badcode": lambda: enc(8, struct.pack(">H", 1005))}[b]()
    if o == "half": return enc(1, b"e" + b"y" * 50)[:17]
    if o == "close": return enc(8, b"" if f["code"] is None else struct.pack(">H", f["code"]))
    return enc({"text": 1, "bin": 2, "cont": 0, "ping": 9, "pong": 10}[o], p, f["fin"])


def parse_frames(raw):
    """everything the server sent after the 101; messages are put together"""
    out, at, cur = [], 0, None
    while at < len(raw):
        if len(raw) < at + 2: raise Bad("half a frame header")
        b0, b1 = raw[at], raw[at + 1]; at += 2
        if b0 & 0x70 or b1 & 0x80: raise Bad("reserved bits or mask in a server frame")
        n = b1 & 0x7f
        if n == 126: n = struct.unpack(">H", raw[at:at + 2])[0]; at += 2
        elif n == 127: n = struct.unpack(">Q", raw[at:at + 8])[0]; at += 8
        d = raw[at:at + n]; at += n
        if len(d) < n: raise Bad("half a frame")
        op, fin = b0 & 15, bool(b0 & 0x80)
        if op >= 8:
            if not fin or n > 125: raise Bad("control frame")
            if op not in (8, 9, 10): raise Bad("opcode %d" % op)
            out.append(({8: "close", 9: "ping", 10: "pong"}[op], d)); continue
        if op == 0:
            if cur is None: raise Bad("continuation without a message")
            cur[1] += d
        else:
            if cur is not None or op not in (1, 2): raise Bad("opcode %d" % op)
            cur = ["text" if op == 1 else "bin", d]
        if fin: out.append((cur[0], cur[1])); cur = None
    if cur is not None: raise Bad("half a message")
    return out


KEY = "dGhlIHNhbXBsZSBub25jZQ=="
ACCEPT = base64.b64encode(hashlib.sha1((KEY + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
def upgrade(rid, extra=""):
    return ("GET /ws HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\nx-id: %s\r\n%s\r\n" % (KEY, rid, extra)).encode()


def session(addr, rec, rid, seed, cut=None, pause=0.0):
    cn = dial(addr)
    try:
        cn.send(upgrade(rid, "x-do: header\r\n" if seed % 3 == 0 else ""))
        if not cn.wait_for(lambda r: b"\r\n\r\n" in r): return dict(why="no answer to the upgrade request: %r" % cn.raw[:100])
        pay = [payload(k, i, seed) for i, k in enumerate(rec["s"])]
        fr = [bytes_of(k, p) for k, p in zip(rec["s"], pay)]
        at = 0
        for upto in rec["h"]:
            if pause: cn.wait_for(lambda r: False, pause); cn.timeout = False
            data = b"".join(fr[at:upto]); at = upto
            if cut:
                c = cut % (len(data) + 1)
                cn.send(data[:c]); cn.send(data[c:])
            else: cn.send(data)
        if not rec["e"]:
            # the session is still open (or waits for our close frame): a
            # polite client waits for what must come before it ends
            cn.wait_for(lambda r: True); cn.end()
        cn.drain()
    finally: cn.close()
    return dict(raw=cn.raw, pay=pay, timeout=cn.timeout, reset=cn.reset, rid=rid, seed=seed)


def judge(rec, ob, log, exc):
    if "why" in ob: return ob["why"]
    head, _, rest = ob["raw"].partition(b"\r\n\r\n")
    try:
        m = parse_messages(head + b"\r\n\r\n")[0]
        fr = parse_frames(rest)
    except Bad as e: return "client: %s" % e
    if m["status"] != 101: return "status %s" % m["status"]
    if hv(m, "sec-websocket-accept") != [ACCEPT] or [x.lower() for x in hv(m, "upgrade")] != ["websocket"] or [x.lower() for x in hv(m, "connection")] != ["upgrade"]: return "101 headers %s" % m["headers"]
    if ob["seed"] % 3 == 0 and hv(m, "x-extra") != [ob["rid"]]: return "the header the handler set is missing"
    body = lambda l: b"".join(ob["pay"][i - 1] for i in l)
    want = []
    for o in rec["o"]:
        b = body(o["fs"])
        if o["e"] in ("text", "bin"): want.append((o["e"], b[1:]))
        elif o["e"] == "pong": want.append(("pong", b))
        elif o["e"] == "ping": want.append(("ping", b""))
        elif o["e"] == "close": want.append(("close", struct.pack(">H", (1000, 1001, 1008, 1011)[int(b[1:2])])))
        elif o["e"] == "closed":
            c = F[rec["s"][o["fs"][0] - 1]]["code"]
            want.append(("close", b"" if c is None else struct.pack(">H", c)))
        else:
            if fr and fr[-1][0] == "close": fr = fr[:-1]           # how a failed session says so is open
    got = [(k, d[:2] if k == "close" else d) for k, d in fr]
    if want and got and want[-1] == ("close", b"") and got[-1] == ("close", b"\x03\xe8"): got[-1] = want[-1]     # no code: the answer may name 1000
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        sh = lambda l: [(k, len(d), d[:12]) for k, d in l[i:i + 2]]
        return "server frame %d: got %s, specified %s" % (i + 1, sh(got), sh(want))
    if ob["timeout"]: return "the connection does not end"
    wl = ["open"]
    for e in rec["l"]:
        if e["w"] in ("text", "bin"): wl.append("%s %s" % (e["w"], hx(body(e["fs"]))))
        else: wl.append(e["w"])
    gl = [" ".join(x[2:]) for x in log if x[0] == "W"]
    gl = [x for x in gl if x != "werr"]
    if gl != wl:
        i = next((i for i, (a, b) in enumerate(zip(gl, wl)) if a != b), min(len(gl), len(wl)))
        return "handler log %d: %s, specified %s" % (i, [x[:60] for x in gl[i:i + 2]], [x[:60] for x in wl[i:i + 2]])
    if len([x for x in log if x[0] == "R"]) != 1: return "the handler ran %d times" % len([x for x in log if x[0] == "R"])
    if exc.count("X boom-" + ob["rid"]) != (1 if wl[-1] == "throw" else 0): return "exception handler called %d times" % exc.count("X boom-" + ob["rid"])
    return None


def ask(addr, rec, rid):
    q = rec["r"]
    h = "%s %s HTTP/1.%d\r\n" % (q["method"], q["path"], q["version"] - 10)
    if q["host"] == "yes": h += "Host: x\r\n"
    if q["connection"]: h += "Connection: %s\r\n" % q["connection"]
    if q["upgrade"]: h += "Upgrade: %s\r\n" % q["upgrade"]
    if q["key"]: h += "Sec-WebSocket-Key: %s\r\n" % (KEY if q["key"] == "good" else KEY * 4)
    if q["ver"]: h += "Sec-WebSocket-Version: %s\r\n" % q["ver"]
    h += "x-id: %s\r\nx-resp: 200 text 5\r\n" % rid
    if q["mode"] and q["path"] == "/ws": h += "x-do: %s\r\n" % q["mode"]
    h += "\r\n"
    cn = dial(addr)
    try:
        cn.send(h.encode())
        st = rec["st"]
        if st == 101:
            cn.wait_for(lambda r: b"\r\n\r\n" in r)
            cn.send(enc(1, b"ehello") + enc(8, b"\x03\xe8"))
        elif rec["stays"]:
            cn.send(("GET /do HTTP/1.1\r\nHost: x\r\nConnection: close\r\nx-id: %s-next\r\nx-resp: 200 text 3\r\n\r\n" % rid).encode())
        cn.drain(4.0)
    finally: cn.close()
    return dict(raw=cn.raw, timeout=cn.timeout, rid=rid)


def judge_ask(rec, ob, log, exc):
    st, q, raw = rec["st"], rec["r"], ob["raw"]
    opened = any(x[0] == "W" for x in log)
    if opened != (st == 101): return "a session %s" % ("runs" if opened else "does not run")
    if ob["timeout"]: return "the connection does not end"
    if st == 0: return None if not raw and exc.count("X boom-" + ob["rid"]) == 1 else "received %r, exception handler called %d times" % (raw[:60], exc.count("X boom-" + ob["rid"]))
    if st == 101:
        head, _, rest = raw.partition(b"\r\n\r\n")
        if not head.startswith(b"HTTP/1.1 101 "): return "answer %r" % head[:80]
        try: fr = parse_frames(rest)
        except Bad as e: return str(e)
        return None if fr == [("text", b"hello"), ("close", b"\x03\xe8")] else "frames %s" % fr[:4]
    try: ms = parse_messages(raw, [q["method"] == "HEAD", False])
    except Bad as e: return str(e)
    want = [st] + ([200] if rec["stays"] else [])
    if [m["status"] for m in ms] != want: return "statuses %s, specified %s" % ([m["status"] for m in ms], want)
    if not all(m["complete"] for m in ms): return "incomplete"
    if st == 426 and hv(ms[0], "sec-websocket-version") != ["13"]: return "426 without the supported version"
    if st == 403 and hv(ms[0], "x-id") != [ob["rid"]]: return "not the handler's refusal"
    if st == 403 and ms[0]["body"] != (b"no session" if q["mode"] == "refuse-text" else b""): return "body %r" % ms[0]["body"]
    return None


def worker(args):
    wid, exe, items = args[:3]
    opt, pre = (",tls=1", "tls:") if args[3:] == ("tls",) else ("", "")
    tmp = tempfile.mkdtemp(prefix="fitw_")
    sock = os.path.join(tmp, "s")
    srv = Server(exe, [sock + opt, sock + "i,timeout=1500" + opt], cwd=tmp)
    sock = pre + sock
    bad, res, hung = [], [], []

    def one(it):
        i, (what, rec, cut) = it
        if not srv.alive() or len(hung) > 10: return
        rid = "w%dc%d" % (wid, i)
        try:
            # a session that is idle for longer than the request timeout; the
            # upgrade itself may miss it on a slow machine, so it is repeated
            for k in range(3 if what == "i" else 0):
                ob = session(sock + "i", rec, "%sk%d" % (rid, k), i, cut, 2.1)
                if not judge(rec, ob, srv.byid.get(ob.get("rid"), []), srv.exc): break
            if what != "i": ob = session(sock, rec, rid, i, cut) if what == "s" else ask(sock, rec, rid)
        except OSError as e: ob = dict(why="client: %s" % e, raw=b"", rid=rid, timeout=False)
        if ob.get("timeout"): hung.append(1)
        res.append((what, rec, ob))
    parallel(0, one, list(enumerate(items)), 6)
    alive = srv.alive()
    rc, err = srv.stop()
    if rc or not alive: bad.append(dict(why="the server process died: rc=%s %s" % (rc, err[-1200:])))
    for what, rec, ob in res:
        log = srv.byid.get(ob.get("rid"), [])
        d = (judge_ask if what == "u" else judge)(rec, ob, log, srv.exc)
        if d: bad.append(dict(why=d, rec=rec, received=ob.get("raw", b"")[:600].decode("latin1"), log=[" ".join(x)[:120] for x in log][:8]))
    if any(e.startswith("LEAKED") for e in srv.exc): bad.append(dict(why="an exception left the io_context"))
    shutil.rmtree(tmp, ignore_errors=True)
    return bad, len(res)


def tset(ks):
    return "{" + ", ".join('[k |-> "%s", o |-> "%s", fin |-> %s, op |-> "%s"]' % (k, F[k]["o"], "TRUE" if F[k]["fin"] else "FALSE", F[k]["op"]) for k in ks) + "}"
