from vlib import *
import conc, random
TECHNIQUE = "TLA+ model of recorded fixings (environment stack, inverse pairs, global store) and of the queries on a history (TLC), histories replayed into the index, fixing and path classes; histories of several threads linearized by TLC"
NOTE = ("Fixings.tla: every history of 3 operations over 3 indices, simulated ones of 20 over 7 indices (equity, FX pairs with inverses, swap); every lookup of every index and time after every operation, strict and quiet, in the environment and the global store. "
        "PathQuery.tla: every history of 3 times with every query, sampled ones of 6. Appends by several threads are linearized (StoreHist.tla). Monitoring intervals are positive multiples of a quarter day; zero fixings of inverse pairs and composite indices (unimplemented) are outside.")
IDX = [({"k": "fx", "dom": "USD", "fgn": "EUR"}, "FX[EUR/USD]", "fx[eur/usd]"), ({"k": "fx", "dom": "EUR", "fgn": "USD"}, "FX[USD/EUR]", "Fx[USD/eur]"), ({"k": "eq", "n": "IBM"}, "EQ[IBM]", "eq[ibm]"),
       ({"k": "eq", "n": "IBM", "delay": "1M"}, "EQ[IBM]>1M", "EQ[Ibm]>1m"), ({"k": "fxname", "n": "FX[GBP/JPY]"}, "FX[GBP/JPY]", "FX[gbp/jpy]"), ({"k": "swap", "ccy": "USD", "n": "5Y"}, "IR:USD,5Y", "ir:usd,5y"),
       ({"k": "eqname", "n": "EQ[IBM]@2025-12-31"}, "EQ[IBM]@2025-12-31", "eq[IBM]@2025-12-31")]
INV = [2, 1, 0, 0, 0, 0, 0]
def main(c):
    exe = build("fixdrv", "asan")
    rep = Replay(exe)
    q = c.quick
    def idx(n): return {"NIdx": str(n), "Inv": "<<%s>>" % ", ".join(map(str, INV[:n]))}
    ramps, steps = "{0, 1, 4}", "{1, 2, 3}"
    runs = c.parallel([
        lambda: c.mc("Fixings", dict(idx(3), NTimes="1", Vals="{2, 5}", MaxOps="3" if q else "4", MaxDepth="2"), ["Found", "Emitted"], name="all histories", workers=3),
        lambda: c.mc("Fixings", dict(idx(7), NTimes="4", Vals="{-2, 3, 4, 5, 8}", MaxOps="20", MaxDepth="4"), ["Found", "Emitted"], spec="RSpec", name="long histories", simulate=80 if q else 2500, depth=22, seed=c.seed, workers=2),
        lambda: c.mc("PathQuery", {"NTimes": "2", "Vals": "-2..2", "Ramps": "{0, 2}", "Steps": "{1, 2}", "All": "TRUE"}, ["Probability", "Emitted"], name="all queries", workers=2),
        lambda: c.mc("PathQuery", {"NTimes": "6", "Vals": "-3..3", "Ramps": ramps, "Steps": steps, "All": "FALSE"}, ["Probability", "Emitted"], name="sampled queries", seed=c.seed, workers=2)], 4)
    def diff(k, o):
        key = "; ".join("%s %s %s" % (h["op"], k["names"][h["i"] - 1] if h["i"] else "", h["x"]) for h in k["h"])
        if "exc" in o: return key, o["exc"]
        want = [x[1] for x in IDX[:len(k["idx"])]]
        if o["names"] != want: return key, "names %s, expected %s" % (o["names"], want)
        for j, (h, s) in enumerate(zip(k["h"], o["s"])):
            e = {"n": h["n"], "past": [[v if v else "absent" for v in r] for r in h["past"]], "fix": [[v if d == 1 else 1.0 / v if d == -1 else "absent" for v, d in r] for r in h["fix"]],
                 "glob": [[[t + 1, v] for t, v in enumerate(r) if v] for r in h["glob"]], "find": [[v if v else "absent" for v in r] for r in h["glob"]]}
            for f in e:
                if s[f] != e[f]: return key, "after operation %d %s is %s, expected %s" % (j + 1, f, s[f], e[f])
    def case(m, e, ts): 
        n = len(e["h"][0]["past"])
        return {"op": "lookup", "idx": [x[0] for x in IDX[:n]], "names": [x[1 + m % 2] for x in IDX[:n]], "t": ts[:len(e["h"][0]["past"][0])], "env": m % 3 == 0, "h": e["h"]}
    c.compare(rep, [case(m, e, [[0], [3]][m % 2]) for m, e in enumerate(runs[0].emitted)], "all histories", diff)
    c.compare(rep, [case(m, e, [[0, 2, 4, 9], [3, 4, 5, 100], [1, 31, 32, 365 * 4]][m % 3]) for m, e in enumerate(runs[1].emitted)], "long histories", diff)
    def qdiff(k, o):
        key = "%s %s" % (k["f"], k["q"])
        if "exc" in o: return key, o["exc"]
        w = k["all"][0] / k["all"][1]
        if abs(o["all"] - w) > 1e-12: return key, "all in range with probability %r, expected %r" % (o["all"], w)
        if o["t1"] != (not k["e"]) or o["t2"] != (not k["e"]): return key, "lookup of %s" % ("a recorded fixing fails" if k["e"] else "no fixing succeeds")
        if k["e"]:
            if o["e"] != k["scale"] * k["e"][0]: return key, "expectation %r, expected %r" % (o["e"], k["scale"] * k["e"][0])
            if abs(o["p"] - k["e"][1] / k["e"][2]) > 1e-12: return key, "in range with probability %r, expected %r" % (o["p"], k["e"][1] / k["e"][2])
    for r, name in ((runs[2], "all queries"), (runs[3], "sampled queries")):
        em = r.emitted if not q or name != "all queries" else r.emitted[c.seed % 2::2]
        c.compare(rep, [dict(e, op="query", scale=(1, 0.25, 1024)[m % 3], start=(26, 0, 3)[m // 3 % 3], unit=(1, 4, 3)[m // 9 % 3]) for m, e in enumerate(em)], name, qdiff)
    def ndiff(k, o): return None if o.get("name") == k["want"] else (k["want"], "%s" % o)
    c.compare(rep, [{"op": "name", "d": d, "want": w} for d, w in NAMES], "index names", ndiff)
    rnd = random.Random(c.seed)
    ops = lambda t: rnd.choice([["H", rnd.randint(0, 1)], ["W", 100 * rnd.randint(0, 1) + 10 * rnd.randint(0, 1) + rnd.randint(0, 2)], ["W", 100 * rnd.randint(0, 1) + 10 + rnd.randint(0, 2)]])
    progs = [[[["W", 10], ["H", 0]], [["W", 11], ["H", 0]]], [[["W", 10], ["W", 11]], [["W", 12], ["W", 1], ["H", 0]]]]
    progs += [[[ops(t) for _ in range(3)] for t in range(rnd.choice([2, 2, 3]))] for _ in range(8 if q else 60)]
    conc.explore(c, build("storconc", "plain"), "StoreHist", progs, bound=2, limit=400 if q else 4000, rnd=60 if q else 600)
    conc.races(c, build("storconc", "tsan"), progs, 30 if q else 300, "data races")
NAMES = [({"k": "eq", "n": "A", "date": [2024, 2, 29]}, "EQ[A]@2024-02-29"), ({"k": "eqname", "n": "EQ[A B]"}, "EQ[A B]"), ({"k": "eqname", "n": "EQ[.SPX]>2D"}, "EQ[.SPX]>2D"), ({"k": "fxname", "n": "FX[CNY/AUD]"}, "FX[CNY/AUD]"),
         ({"k": "fx", "dom": "CHF", "fgn": "CAD"}, "FX[CAD/CHF]"), ({"k": "swap", "ccy": "JPY", "n": "10Y"}, "IR:JPY,10Y")]
