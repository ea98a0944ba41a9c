from vlib import *
import math, random
TECHNIQUE = "TLA+ bridge construction (any filling order keeps Brownian covariances, checked by TLC) and stream-position histories, replayed into the bridge"
NOTE = ("Bridge.tla: for up to 7 points and every order of filling, interpolation plus deviate gives a Brownian path exactly. The implementation's response to unit driver vectors is measured for every dimension: "
        "it must be linear, orthonormal, with the first driver carrying the terminal value; histories of draws, skips and clones from RandomStream.tla must give the response to the named driver vector.")
def phi(z): return 0.5 * math.erfc(-z / math.sqrt(2))

def main(c):
    exe = build("randdrv", "asan")
    rep = Replay(exe)
    res = c.parallel([lambda: c.mc("Bridge", {"Sizes": "1..6" if c.quick else "1..7"}, ["Brownian", "OncePerPoint", "Emitted"], name="bridge", workers=4),
                      lambda: c.mc("RandomStream", {"Skips": "{0, 1, 2, 5}", "MaxOps": "4" if c.quick else "5", "MaxObjs": "2"}, ["TypeOk", "Emitted"], name="histories", workers=4),
                      lambda: c.mc("RandomStream", {"Skips": "{0, 1, 2, 3, 8, 17}", "MaxOps": "12", "MaxObjs": "4"}, ["TypeOk", "Emitted"], name="long", spec="RSpec", simulate=40 if c.quick else 800, depth=14, seed=c.seed, workers=4)])
    dims = list(range(1, 70)) + [100, 127, 128, 129] if c.quick else list(range(1, 260)) + [365, 511, 512, 513]
    resp = {}
    def unit(n): return [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    rnd = random.Random(c.seed)
    def mul(n, z): return [sum(z[d] * resp[n][d][i] for d in range(n)) for i in range(n)]
    def dunit(k, o):
        n = k["dim"]
        if "exc" in o: return "dimension %d" % n, o["exc"]
        if o["ndim"] != n: return "dimension %d" % n, "reports dimension %s" % o["ndim"]
        b = o["v"]                      # b[d][i]: increment i from driver d
        resp[n] = b
        if not all(abs(x - 1 / math.sqrt(n)) < 1e-12 for x in b[0]): return "dimension %d" % n, "the first driver does not give equal increments: %s" % b[0][:6]
        for d in range(1, n):
            if abs(sum(b[d])) > 1e-11: return "dimension %d" % n, "driver %d moves the terminal value by %s" % (d, sum(b[d]))
        pairs = [(i, j) for i in range(n) for j in range(i + 1)] if n <= 70 else [(i, i) for i in range(n)] + [(rnd.randrange(n), rnd.randrange(n)) for _ in range(2500)]
        e = max(abs(sum(x * y for x, y in zip(b[i], b[j])) - (i == j)) for i, j in pairs)
        if not e < 1e-12: return "dimension %d" % n, "not orthonormal: off by %s" % e
    c.compare(rep, [{"op": "bridge", "dim": n, "rows": unit(n), "h": [["N", 1, i] for i in range(n)]} for n in dims], "responses", dunit)
    if c.violations: return
    # several histories against the response: N vector i = response to driver vector i
    cases = []
    for m, r in enumerate(res[1].emitted + res[2].emitted):
        n = [1, 2, 3, 4, 5, 7, 8, 13][(m + c.seed) % 8]
        rows = [[round(rnd.uniform(-3, 3), 3) for _ in range(n)] for _ in range(40)]
        # the bridge draws normals of its driver for both kinds of vector: follow its position
        h, g = [], {1: 0}
        cur = 1
        for w, i, p in r["h"]:
            if w == "C": h.append(["C", 1, 0]); cur += 1; g[cur] = 0
            elif w == "S": h.append(["S", 1, p]); g[cur] = p
            else: h.append([w, 1, g[cur]]); g[cur] += 1
        cases.append({"op": "bridge", "dim": n, "rows": rows, "h": h})
    def dh(k, o):
        name = "dim %d: %s" % (k["dim"], " ".join("%s:%s" % (h[0], h[2]) for h in k["h"]))
        if "exc" in o: return name, o["exc"]
        draws = [h for h in k["h"] if h[0] in "UN"]
        for h, v in zip(draws, o["v"]):
            e = mul(k["dim"], k["rows"][h[2] % 40])
            if h[0] == "U": e = [phi(x) for x in e]
            if not close(v, e, 1e-11 if h[0] == "N" else 1e-7): return name, "%s vector %d is %s, expected %s" % (h[0], h[2], v, e)
    c.compare(rep, cases, "histories", dh)
    # over the real generators
    conf = [(k, s, d, p) for k in ("MRG32", "IRN") for s in (1024, 5) for d in (1, 2, 3, 5, 12) for p in (False, True)]
    base = [{"op": "stream", "kind": k, "seed": s, "dim": d, "precise": p, "bb": False, "h": [["N", 1, i] for i in range(40)]} for k, s, d, p in conf]
    table = {(k["kind"], k["seed"], k["dim"], k["precise"]): o.get("v") for k, o in rep.run(base)}
    cases = []
    for m, r in enumerate(res[1].emitted + res[2].emitted):
        if any(h[0] == "U" for h in r["h"]): continue
        k, s, d, p = conf[(m * 3 + c.seed) % len(conf)]
        cases.append({"op": "stream", "kind": k, "seed": s, "dim": d, "precise": p, "bb": True, "h": r["h"]})
    def dr(k, o):
        name = "bridge over %s seed=%s dim=%s precise=%s: %s" % (k["kind"], k["seed"], k["dim"], k["precise"], " ".join("%s%s:%s" % tuple(h) for h in k["h"]))
        if "exc" in o: return name, o["exc"]
        t = table[k["kind"], k["seed"], k["dim"], k["precise"]]
        for h, v in zip([h for h in k["h"] if h[0] == "N"], o["v"]):
            if h[2] >= 40: continue
            e = mul(k["dim"], t[h[2]])
            if not close(v, e, 1e-11): return name, "vector %d is %s, expected %s" % (h[2], v, e)
    c.compare(rep, cases, "over generators", dr)
