from vlib import *
import math
TECHNIQUE = "TLA+ model of asset models walking a lattice of log-spots under an exact rational volatility surface (TLC, exhaustive on small and sampled on larger instances), each walk turned into draws and replayed into the models in plain and differentiated numbers"
NOTE = ("Paths.tla: the time line (gaps cut into equal steps), the volatility of each step (linear in time and log-spot, flat outside), copies, bumps through the published parameters and new date lines, with invariants on coverage, bounds and independence. "
        "Replay: the models must land on the lattice at every date (1e-9), with numeraires and discounts; sensitivities of a sum over the path against the exact tangent recursion along the walk, where the walk avoids the knots. Forwards after the date, dates within half a day of today and volatilities near zero are outside.")
def seqs(ss): return "{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, s)) for s in ss)
Q = 10080          # ticks in a quarter: a sixteenth of a year can be cut into up to ten equal steps
def sx(ss): return seqs([tuple(2520 * x for x in s) for s in ss])
def st(ss): return "{%s}" % ", ".join(str(2520 * x) for x in ss)
def yr(t): return t / (4.0 * Q)
def label(k, p, i, j):
    if p == "x": return "spot"
    if p == "r": return "rate"
    if p == "q": return "div" if k["kind"] == "bs" else "repo"
    return "vol" if k["kind"] == "bs" else "lvol %.2f %.2f" % (math.exp(k["sg"][i - 1] / 8.0), yr(k["tg"][j - 1]))
def order(k):
    v = [("v", i + 1, j + 1) for i in range(len(k["sg"])) for j in range(len(k["tg"]))]
    return [("x", 0, 0)] + v + [("r", 0, 0), ("q", 0, 0)] if k["kind"] == "bs" else [("x", 0, 0), ("r", 0, 0), ("q", 0, 0)] + v
def pval(p, x): return math.exp(x / 8.0) if p == "x" else x / 100.0
def draws(h):
    z = []
    for s in h["steps"]:
        vol, dt = s["vol"]["num"] / s["vol"]["den"] / 100.0, yr(s["u"] - s["t"])
        z.append(((s["y"] - s["x"]) / 8.0 - (h["mod"]["r"] - h["mod"]["q"]) / 100.0 * dt) / (vol * math.sqrt(dt)) + 0.5 * vol * math.sqrt(dt))
    return z
def tangents(k, h, z):
    """derivatives of the log-spot at every date along the walk, in each published parameter"""
    ps = order(k)
    g = {p: (math.exp(-h["mod"]["x"] / 8.0) if p[0] == "x" else 0.0) for p in ps}
    at = {0: dict(g)} if 0 in h["line"] else {}
    for s, zz in zip(h["steps"], z):
        v, dt = s["vol"], yr(s["u"] - s["t"])
        vol, sq = v["num"] / v["den"] / 100.0, math.sqrt(dt)
        slope = v["slope"] / v["den"] / 100.0 * 8.0 if v["in"] else 0.0       # per unit of log-spot
        sp, tp = v["s"], v["t"]
        for p in ps:
            dv = slope * g[p]
            if p[0] == "v":
                ws = ((sp["d"] - sp["w"]) if p[1] == sp["lo"] else 0) + (sp["w"] if p[1] == sp["hi"] and sp["hi"] != sp["lo"] else 0)
                wt = ((tp["d"] - tp["w"]) if p[2] == tp["lo"] else 0) + (tp["w"] if p[2] == tp["hi"] and tp["hi"] != tp["lo"] else 0)
                dv += ws * wt / (sp["d"] * tp["d"])
            g[p] = g[p] + dv * (-vol * dt + sq * zz) + (dt if p[0] == "r" else -dt if p[0] == "q" else 0.0)
        if s["date"]: at[s["u"]] = dict(g)
    return at
def sens(k, h, z):
    at, r = tangents(k, h, z), h["mod"]["r"] / 100.0
    X = {s["u"]: s["y"] for s in h["steps"]}; X[0] = h["mod"]["x"]
    out = []
    for p in order(k):
        a = 0.0
        for i, t in enumerate(h["line"]):
            df = math.exp(-r * yr(t)) if h["flags"][i] else 1.0
            a += (1.0 + i) * math.exp(X[t] / 8.0) * df * (at[t][p] - (yr(t) if p[0] == "r" and h["flags"][i] else 0.0))
            if p[0] == "r": a += sum(-3.0 * yr(m - t) * math.exp(-r * yr(m - t)) for m in h["dfs"][i])
        out.append(2.0 * a)
    return out
def near(a, b, s): return abs(a - b) <= 1e-9 * s
def main(c):
    q = c.quick
    rep = Replay(build("modeldrv", "asan"))
    inv = ["Covered", "Between", "Emitted"]
    small = {"Q": "10080", "Kinds": '{"bs", "dupire"}', "SpotGrids": seqs([(-2, 2)]), "TimeGrids": sx([(0,), (4, 8)]), "Lines": sx([(0, 8), (4,), (12,)]), "MaxSteps": st([4, 8]), "VolSet": "{10, 30}",
             "RateSet": "{5}", "SpotSet": "{1}", "Moves": "{-2, 3}", "MaxOps": "2", "R": "0"}
    big = {"Q": "10080", "Kinds": '{"bs", "dupire"}', "SpotGrids": seqs([(0,), (-8, 8), (-4, 0, 2), (-12, -6, -2, 0, 4, 14), (-40, -30)]), "TimeGrids": sx([(0,), (4,), (0, 16), (4, 12, 36), (0, 1, 3, 8, 24), (-16, 2)]),
           "Lines": "{l \\in {SetToSortSeq(s, <) : s \\in {x \\in SUBSET %s : x # {} /\\ x # {0}}} : Len(l) <= 5}" % st([0, 1, 4, 8, 11, 16, 20, 24, 31, 40]), "MaxSteps": st([4, 5, 8, 12, 16]), "VolSet": "5..60",
           "RateSet": "-3..9", "SpotSet": "-9..11", "Moves": "-5..5", "MaxOps": "8", "R": "1"}
    odd = dict(big, SpotGrids=seqs([(-8, 8), (-4, 0, 2), (-12, -6, -2, 0, 4, 14), (-40, -30), (-2, 6)]), SpotSet="{-7, -5, -3, -1, 1, 3, 5, 7}", Moves="{-4, -2, 0, 2, 4}")
    n = 500 if q else 4000
    runs = c.parallel([lambda: c.mc("Paths", small, inv, name="small paths", extra="PROPERTY Apart\n", workers=4),
                       lambda: c.mc("Paths", big, inv, name="paths", simulate=n, depth=400, seed=c.seed, workers=2),
                       lambda: c.mc("Paths", odd, inv, name="paths off the knots", simulate=n, depth=400, seed=c.seed + 7, workers=2)], 3)
    def diff(k, o):
        key = "%s %s walk %s" % (k["kind"], k["spots"], [h["op"] for h in k["hist"]])
        if "exc" in o: return key, o["exc"]
        want = [label(k, *p) for p in order(k)]
        if o["labels"] != want: return key, "labels %s" % o["labels"]
        ws = [h for h in k["hist"] if h["op"] == "W"]
        if len(ws) != len(o["w"]): return key, "%d walks" % len(o["w"])
        for n, (h, w) in enumerate(zip(ws, o["w"])):
            t = "walk %d: " % (n + 1)
            if w["dim"] != len(h["steps"]): return key, t + "%d steps, expected %d" % (w["dim"], len(h["steps"]))
            if w["np"] != len(want): return key, t + "%d parameters" % w["np"]
            X = {s["u"]: s["y"] for s in h["steps"]}; X[0] = h["mod"]["x"]
            r = h["mod"]["r"] / 100.0
            for i, d in enumerate(h["tk"]):
                e = math.exp(X[d] / 8.0)
                if not near(w["s"][i], e, e): return key, t + "spot %r at date %g, expected %r" % (w["s"][i], yr(d), e)
                if k["kind"] != "bs" and not near(w["f"][i], e, e): return key, t + "forward %r at date %g, expected %r" % (w["f"][i], yr(d), e)
                e = math.exp(r * yr(d)) if h["flags"][i] else 1.0
                if not near(w["n"][i], e, e): return key, t + "numeraire %r at date %g, expected %r" % (w["n"][i], yr(d), e)
                for m, x in zip(h["mats"][i], w["d"][i]):
                    e = math.exp(-r * yr(m - d)) if k["kind"] != "bs" else 1.0
                    if not near(x, e, e): return key, t + "discount %r from %g to %g, expected %r" % (x, yr(d), yr(m), e)
            if k["aad"] and not any(s["knot"] for s in h["steps"]):
                e = h["sens"]
                big = max(1.0, max(map(abs, e)))
                for l, x, y in zip(want, w["adj"], e):
                    if not near(x, y, 10 * big): return key, t + "sensitivity to %s: %r, expected %r" % (l, x, y)
    for nm, r in zip(("small paths", "paths", "paths off the knots"), runs):
        cases = []
        for i, e in enumerate(r.emitted):
            if not any(h["op"] == "W" for h in e["hist"]): continue
            k = dict(e, op="paths", direct=e["mx"] != 4 * Q or i % 2 == 0, aad=(nm == "paths off the knots" or i % 3 == 0), spots=[math.exp(x / 8.0) for x in e["sg"]], times=[yr(t) for t in e["tg"]], mx=yr(e["mx"]))
            m = e["hist"][0]["mod"]
            k["par"] = {"x": pval("x", m["x"]), "r": m["r"] / 100.0, "q": m["q"] / 100.0, "v": [[v / 100.0 for v in row] for row in m["v"]]}
            hs = []
            for h in e["hist"]:
                h = dict(h)
                if h["op"] == "A": h.update(line=[yr(t) for t in h["line"]], dfs=[[yr(m) for m in d] for d in h["dfs"]])
                elif h["op"] == "B": h.update(label=label(k, h["p"], h["i"], h["j"]), to=pval(h["p"], h["to"]))
                elif h["op"] == "C": h.update(again=i % 2 == 0)
                else:
                    h["z"] = draws(h)
                    if k["kind"] == "bs": h["dfs"] = [[] for _ in h["dfs"]]
                    h["tk"], h["mats"], h["sens"] = h["line"], h["dfs"], sens(k, h, h["z"])
                hs.append(h)
            k["hist"] = hs
            cases.append(k)
        c.compare(rep, cases, nm, diff)
