from vlib import *
import math
TECHNIQUE = "TLA+ model of diffusions, the implied volatilities they produce and the grid a calibration reads off them (TLC, exhaustive on small and sampled on larger instances); every surface is replayed into the local-volatility calibration, in plain and differentiated numbers"
NOTE = ("Calibration.tla: three families of diffusions with exact local volatilities (term structures, shifted lognormal, normal), the grids, the band around the money and what fills the grid outside it, and a view of risk on top. "
        "Replay: grids (1e-9), local volatilities (1e-3 relative), sensitivities to a view of risk against the closed form and against bumps, Merton surfaces (where time values are above rounding) against an independent Merton sum. Grid spots within about 1% of the edge of the band, interest rates in the surface, and standard deviations below 3% or above 60% are outside.")
def seqs(ss): return "{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, s)) for s in ss)
def N(z): return 0.5 * math.erfc(-z / math.sqrt(2.0))
def bs(f, k, s):
    d = math.log(f / k) / s + 0.5 * s
    return f * N(d) - k * N(d - s)
def merton(s0, k, t, v, lam, m, sd):
    x = math.exp(m + 0.5 * sd * sd) - 1
    return sum(math.exp(-lam * t) * (lam * t) ** j / math.factorial(j) * bs(s0 * math.exp(-lam * x * t + j * (m + 0.5 * sd * sd)), k, math.sqrt(v * v * t + j * sd * sd)) for j in range(40))
def main(c):
    q = c.quick
    rep = Replay(build("calibdrv", "asan"))
    inv = ["Grids", "Flat", "Sources", "Emitted"]
    small = {"Sp": "1000", "Fams": '{"term", "shift", "normal"}', "V0s": "{10, 25}", "As": "{-200, 500}", "SpotSets": seqs([(1000,), (500, 1500), (700, 1020), (900, 1000, 1250), (1300, 1400)]), "MaxDss": "{100, 2000}",
             "TimeSets": seqs([(12,), (24, 60)]), "MaxDts": "{12, 30}", "NodeSets": seqs([(20, 40)]), "SprSets": "{0, 4}", "R": "0"}
    big = {"Sp": "1000", "Fams": '{"term", "shift", "normal"}', "V0s": "{4, 7, 10, 15, 20, 30, 45, 60}", "As": "{-300, -150, 100, 400, 1000}",
           "SpotSets": seqs([(1000,), (500, 1500), (990, 1010), (400, 700, 1000, 1300, 1900), (600, 950), (1100, 1200, 1700), (300, 2500), (850, 1000, 1005, 1150), (1040,), (200, 960, 1010, 3000), (800, 801, 802, 1100)]),
           "MaxDss": "{15, 40, 70, 150, 333, 1000, 5000}", "TimeSets": seqs([(6,), (12, 48), (24, 25, 70), (48, 96, 144), (7, 20, 31), (3, 6, 9, 96)]), "MaxDts": "{4, 9, 12, 25, 48, 200}",
           "NodeSets": seqs([(24,), (10, 40), (5, 25, 60), (12, 48, 96), (1, 2, 3), (50, 140)]), "SprSets": "-3..6", "R": "6"}
    r0, r1 = c.parallel([lambda: c.mc("Calibration", small, inv, name="small", workers=4), lambda: c.mc("Calibration", big, inv, name="random", simulate=250 if q else 2500, depth=7, seed=c.seed, workers=3)], 2)
    cases, seen = [], set()
    for i, e in enumerate(r0.emitted + r1.emitted):
        g = e["cfg"]
        key = json.dumps(g, sort_keys=True)
        if key in seen: continue
        seen.add(key)
        k = {"op": "calib", "f": g["f"], "v0": g["v0"] / 100.0, "a": g["a"] / 10.0, "ns": [x / 48.0 for x in g["ns"]], "sp": [x / 100.0 for x in g["sp"]], "risk": g["risk"], "spot": 100.0,
             "ss": [x / 10.0 for x in g["ss"]], "ds": g["ds"] / 10.0, "ts": [x / 48.0 for x in g["ts"]], "dt": g["dt"] / 48.0, "strikes": ([90.0, 110.0], [100.0], [60.0, 97.0, 140.0])[i % 3], "e": e}
        if g["risk"] and len(e["spots"]) * len(e["times"]) < 80: k["cell"] = [i % len(e["spots"]), (i // 7) % len(e["times"])]
        if g["f"] == "term" and i % 7 == 0 and k["v0"] * math.sqrt(min(k["ts"] + [k["dt"]])) > 0.1: k["merton"] = [g["v0"] / 100.0, (0.05, 0.5, 2.0)[i % 3], (-0.15, 0.1, 0.0)[i // 3 % 3], (0.1, 0.02)[i % 2]]
        cases.append(k)
    kinds = {}
    for k in cases: kinds[k["f"], k["risk"]] = kinds.get((k["f"], k["risk"]), 0) + 1
    log("cases", kinds, "without a spot in the band:", sum(any(0 in s for s in k["e"]["src"]) for k in cases))
    def grid(nm, got, want, u):
        w = [x["n"] / x["d"] / u for x in want]
        if len(got) != len(w): return "%s %r, expected %r" % (nm, got, w)
        for x, y in zip(got, w):
            if not abs(x - y) < 1e-9: return "%s %r, expected %r" % (nm, got, w)
    def diff(k, o):
        e = k["e"]
        g = e["cfg"]
        key = "%s %s spots %s by %g times %s by %g nodes %s spreads %s%s" % (k["f"], (g["v0"], g["a"]), g["ss"], g["ds"], g["ts"], g["dt"], g["ns"], g["sp"], " as a view" if k["risk"] else "")
        if "exc" in o: return key, o["exc"]
        r = o.get("risk") or o["own"]
        w = grid("spots", r["spots"], e["spots"], 10.0) or grid("times", r["times"], e["times"], 48.0)
        if w: return key, w
        def cells(r, exp, tol, where=lambda s, t: True):
            for j, row in enumerate(r["lv"]):
                for i, y in enumerate(row):
                    x = exp(j, i)
                    if where(r["spots"][i], r["times"][j]) and not (isinstance(y, (int, float)) and abs(y - x) <= tol * x): return "local volatility %r at spot %g and time %g, expected %r" % (y, r["spots"][i], r["times"][j], x)
        def exp(j, i):
            l = e["lv"][j][i]
            return (math.sqrt(l["n"] * l["m"]) / l["d"] if l["sq"] else l["n"] / l["d"]) / 100.0
        w = cells(r, exp, 1e-3)
        if w: return key, w
        if "adj" in o:
            i, j = k["cell"]
            if abs(o["val"] - r["lv"][j][i]) > 1e-12: return key, "differentiated calibration gives %r, plain %r" % (o["val"], r["lv"][j][i])
            m = len(k["ns"])
            for p, (x, y, z) in enumerate(zip(o["adj"], o["bump"][::2], o["bump"][1::2])):
                if not isinstance(y, str) and not isinstance(z, str) and abs(y - z) < 2e-3 * (1 + abs(y)) and not abs(x - y) < 1e-2 * (1 + abs(y)): return key, "sensitivity %d of cell %s is %r, by bumping %r" % (p, (i, j), x, y)
            T, v = e["times"][j]["n"] / e["times"][j]["d"], e["atm"][j]
            vv, tv, lv = v["A"] / v["D"], v["B"] / v["D"], exp(j, i) * 100
            ns = g["ns"]
            for n in range(m):
                # weights of node n in v and in T v'
                def tent(t):
                    if t <= ns[0]: return 1.0 if n == 0 else 0.0
                    if t >= ns[-1]: return 1.0 if n == m - 1 else 0.0
                    h = max(x for x in range(m) if ns[x] <= t)
                    f = (t - ns[h]) / (ns[h + 1] - ns[h])
                    return 1 - f if n == h else f if n == h + 1 else 0.0
                wt, ut = tent(T), T * (tent(T + 1e-3) - tent(T - 1e-3)) / 2e-3
                x = sum(o["adj"][p * m + n] for p in range(len(k["strikes"])))
                y = (vv * wt + wt * tv + vv * ut) / lv
                if not abs(x - y) < 2e-3 * (1 + abs(y)): return key, "sensitivity of cell %s to node %d is %r, expected %r" % ((i, j), n, x, y)
        if "mcall" in o:
            it = iter(o["mcall"])
            for kk in k["strikes"]:
                for t in k["ts"]:
                    x, y = next(it), merton(100.0, kk, t, *k["merton"])
                    if not abs(x - y) < 1e-6 : return key, "Merton call at %g, %g is %r, expected %r" % (kk, t, x, y)
            w = cells(o["mflat"], lambda j, i: k["merton"][0], 2e-2, lambda s, t: abs(s - 100.0) < 100.0 * k["merton"][0] * math.sqrt(t))
            if w: return key, "Merton without jumps: " + w
    c.compare(rep, cases, "calibration", diff)
