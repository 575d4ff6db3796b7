"""Websocket sessions: every script of frames, and every upgrade request."""
import sys, os, base64, hashlib, struct, tempfile, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from wire import *
from wsock import *

INV = ["Delivered", "Echoed", "Pongs", "Final", "Live", "EmitInv"]


def run(ck):
    T = ck.thorough
    exe_f = ck.build_async("server", boost=True)
    every = [k for k in F if "+" not in k]
    core = ["Te", "Be", "Tf", "Bf", "c0", "c1", "ping", "cl1000", "rsv"]
    ops = ["Ts", "B2", "Tp", "Bn", "Tc", "Bq", "Tt", "Te", "cl"]
    big = [b[0] for b in BIG]
    J = [("kinds", every, 2, 1), ("frames", core, 4, 1), ("ops", ops, 3, 1), ("segments", ["Te", "Bf", "c0", "c1", "ping", "cl1000"], 3 if not T else 4, 3), ("large", big, 1, 1), ("large2", big[::5] + ["c1", "Tf"], 2, 2)]
    if T: J += [("frames5", ["Te", "Bf", "c0", "c1", "ping"], 6, 1), ("kinds3", every[::2], 3, 1)]
    jobs = [(t, ck.tlc_async("WebSocket", invariants=INV, consts=dict(Frames=tset(ks), MaxFrames=n, MaxSegs=g), tag=t, workers=4)) for t, ks, n, g in J]
    up = ck.tlc_async("Upgrade", invariants=["OnlyValid", "ValidOpens", "EmitInv"], consts=dict(Vary=2), tag="upgrade requests", workers=2)
    exe = exe_f.result()
    items = []
    for tag, f in jobs:
        recs = f.result()[0]
        seen = {}
        for r in recs:
            key = json.dumps([r["s"], r["h"], r["o"], r["l"]])
            # the server may notice the end of the client before or after it ends by itself
            seen[key] = dict(r, e=r["e"] or (key in seen and seen[key]["e"]))
        rs = list(seen.values())
        if tag in ("frames", "kinds") and not T: rs = [r for i, r in enumerate(rs) if len(r["s"]) < 4 or i % 3 == 0]
        for i, r in enumerate(rs):
            items.append(("s", r, None))
            if i % 4 == 0 and r["s"]: items.append(("s", r, 1 + i * 7))
        ck.note("%s: %d sessions" % (tag, len(rs)))
        ck.sample(rs[-1])
    idle = [it for it in items if it[0] == "s" and it[2] is None and 1 <= len(it[1]["h"]) <= 2 and it[1]["o"]]
    items += [("i", it[1], None) for it in ck.rng.sample(idle, min(len(idle), 96 if not T else 400))]
    ups = up.result()[0]
    seen = {json.dumps(r, sort_keys=True): r for r in ups}
    items += [("u", r, None) for r in seen.values()]
    ck.note("%d upgrade requests" % len(seen))
    t = time.time()
    with mp.get_context("fork").Pool(8) as pool: res = pool.map(worker, [(w, exe, items[w::8]) for w in range(8)])
    n = sum(x[1] for x in res)
    for bad, _ in res:
        for b in bad: ck.violation("websocket", b)
    for _, r, c in items: ck.seen(json.dumps([r, c]))
    ck.traces += n; ck.steps += n
    ck.note("%d sessions and upgrades replayed in %.1fs" % (n, time.time() - t))
    if n < len(items) and not ck.violations: raise Infra("only %d of %d replayed" % (n, len(items)))
    ck.extra["rule"] = "all frame scripts up to the stated lengths over the frame kinds, deliveries in one or several segments and with a cut inside a frame, payload sizes over the length encodings; all upgrade requests that differ from a valid one in up to two fields"


main("S07", run)
