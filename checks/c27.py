from vlib import *
import math, random, itertools
TECHNIQUE = "TLA+ models of interpolation by weighted corners, of piecewise functions with integrals as sums of daily areas, and of splines as truncated cubes (TLC, exact), replayed into the interpolators and curves"
NOTE = ("Interp.tla: all value sets on small knot sets and sampled ones on larger, at every quarter point in and around the range, one and two dimensions. Curves.tla: all values on small and sampled on larger knot sets, every date around; discount factors against the integrals, with bases, clones and chaining. "
        "Spline.tla: the space of all C2 piecewise cubics with integer coefficients, sampled, with the nine pairs of end conditions. Rejection of unsorted, repeated or mismatched knots is enumerated. Repeated knots of linear interpolators (accepted) and extrapolated splines are outside; empty knot sets too. Tolerance 1e-9 relative to the largest value.")
def seqs(ss): return "{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, s)) for s in ss)
def near(a, b, s): return abs(a - b) <= 1e-9 * s
def main(c):
    q = c.quick
    rep = Replay(build("curvedrv", "asan"))
    inv = ["Knots", "Smooth", "Additive", "Emitted"]
    jobs = [("curve", 3, lambda: c.mc("Curves", {"KnotSets": seqs([(0,), (3,), (0, 1), (0, 4), (1, 4)]), "Vals": "{-1, 0, 2}", "Span": "3", "Gap": "12", "Sample": "0"}, inv, name="small curves", workers=2)),
            ("curve", 5, lambda: c.mc("Curves", {"KnotSets": seqs([(0, 1, 3), (0, 4, 5, 7), (-7, -4, 0, 2, 14), (0, 3, 6, 9, 10, 14)]), "Vals": "-9..9", "Span": "5", "Gap": "84", "Sample": "12" if q else "70"}, inv, name="curves", seed=c.seed, workers=2)),
            ("interp", 0, lambda: c.mc("Interp", {"XKnots": seqs([(0,), (0, 1), (1, 4)]), "YKnots": seqs([(0,), (0, 2), (-1, 0, 3)]), "Vals": "{-1, 0, 3}", "Sample": "0"}, ["Reproduces", "Emitted"], name="small grids", workers=2)),
            ("interp", 0, lambda: c.mc("Interp", {"XKnots": seqs([(0, 1, 4, 6), (-3, 5), (0, 1, 2), (2,)]), "YKnots": seqs([(0, 3, 4, 9), (1, 2), (-5, -4, 0, 1, 2)]), "Vals": "-9..9", "Sample": "25" if q else "300"}, ["Reproduces", "Emitted"], name="grids", seed=c.seed, workers=2)),
            ("spline", 0, lambda: c.mc("Spline", {"KnotSets": seqs([(0, 1, 2), (-1, 0, 3), (0, 1, 3, 4), (-2, 0, 1, 2, 5)]), "Coef": "-4..4", "Sample": "6" if q else "30"}, ["Emitted"], name="splines", seed=c.seed, workers=2))]
    runs = c.parallel([j for _, _, j in jobs], 4)
    def cdiff(k, o):
        key = "knots %s values %s %s" % (k["k"], k["l"], k["r"])
        if "exc" in o: return key, o["exc"]
        s, g = k["scale"], k["gap"]
        first = k["k"][0] - k["span"]
        W = {"cf": [s * x for x in k["cf"]], "ci": [s * x for x in k["ci"]], "vr": [s * x / g for x in k["vr"]], "vl": [s * x / g for x in k["vl"]], "li": [s * x / (2.0 * g) for x in k["li"]],
             "knot": [1.0 if first + j in k["k"] else 0.0 for j in range(len(k["cf"]))], "cx": [s * (b - a) for a, b in zip(k["ci"], k["ci"][::-1])]}
        I = W["li"]
        # the base pays s a day up to day 1 and 2 s a day after it
        base = [s * (d - 1) if d < 1 else 2 * s * (d - 1) for d in range(first, first + len(I))]
        for f, e in (("d0", [x - I[0] for x in I]), ("d0b", [I[-1] - x for x in I]), ("b", [x - base[0] for x in base]), ("d1", [x - I[0] + y - base[0] for x, y in zip(I, base)]), ("cl", [x - I[0] for x in I]), ("cl2", [x - I[0] + y - base[0] for x, y in zip(I, base)])):
            W[f] = [math.exp(-x / 365.0) for x in e]
        for f, w in W.items():
            big = max(map(abs, w)) or 1.0
            for j, (x, y) in enumerate(zip(o[f], w)):
                if not near(x, y, big): return key, "%s on day %d: %r, expected %r" % (f, first + j, x, y)
            if len(o[f]) != len(w): return key, "%s has %d entries" % (f, len(o[f]))
        if not o["poll"]: return key, "polling the components of a curve"
    def idiff(k, o):
        key = "knots %s x %s values %s" % (k["x"], k["y"], k["f"])
        if "exc" in o: return key, o["exc"]
        big = k["fscale"] * max(1.0, max(abs(v) for r in k["f"] for v in r))
        for i, (ro, rk) in enumerate(zip(o["v"], k["v"])):
            for j, (x, (n, d)) in enumerate(zip(ro, rk)):
                if not near(x, k["fscale"] * n / d, big): return key, "at quarters %d, %d: %r, expected %r" % (i - 4, j - 4, x, k["fscale"] * n / d)
        for w in ("one", "map"):
            if w in o:
                for j, (x, (n, d)) in enumerate(zip(o[w], k["v"][0])):
                    if not near(x, k["fscale"] * n / d, big): return key, "%s at quarter %d: %r, expected %r" % (w, j - 4, x, k["fscale"] * n / d)
    def sdiff(k, o):
        key = "knots %s values %s ends %s %s" % (k["k"], k["f"], k["bl"], k["br"])
        if "exc" in o: return key, o["exc"]
        if not o["in"]: return key, "bounds"
        w = [k["fscale"] * x / 64.0 for x in k["v"]]
        big = k["fscale"] * 1e3 + max(map(abs, w))
        for j, (x, y) in enumerate(zip(o["v"], w)):
            if not near(x, y, big): return key, "at quarter %d: %r, expected %r" % (j, x, y)
    for m, ((kind, sp, _), r) in enumerate(zip(jobs, runs)):
        em, name = r.emitted, "%s %d" % (kind, m + 1)
        if q and len(em) > 3000: em = em[c.seed % 2::2]
        if kind == "curve":
            g = 12 if sp == 3 else 84
            c.compare(rep, [dict(e, op="curve", span=sp, gap=g, scale=(1, 0.03125, -4)[i % 3], update=i % 2 == 0) for i, e in enumerate(em)], name, cdiff)
        elif kind == "interp": c.compare(rep, [dict(e, op="interp", scale=(1, 0.001, 1000, 3.7)[i % 4], shift=(0, 5, -0.125)[i % 3], fscale=(1, 0.01, 100)[i % 3]) for i, e in enumerate(em)], name, idiff)
        else: c.compare(rep, [dict(e, op="spline", scale=(1, 0.5, 2)[i % 3], shift=(0, 5, -0.125)[i // 3 % 3], fscale=(1, 0.01, 100)[i % 3]) for i, e in enumerate(em)], name, sdiff)
    # acceptance: enough knots, sorted, as many values
    rj = []
    for n in range(1, 5):
        for x in itertools.product(range(3) if n < 4 else (0, 1, 2, 5), repeat=n):
            for nf in {n - 1, n, n + 1} - {0}:
                for ng in ({n, n - 1} - {0} if n < 4 else {n}): rj.append((list(x), nf, ng))
    def rdiff(k, o):
        key = "knots %s, %d values" % (k["x"], len(k["f"]))
        if "exc" in o: return key, o["exc"]
        x, n = k["x"], len(k["x"])
        up = all(a < b for a, b in zip(x, x[1:])); weak = all(a <= b for a, b in zip(x, x[1:])); same = len(k["f"]) == n
        W = {"lin": weak and same, "lin2": weak and same, "lin2t": weak and same, "cub": n > 2 and up and same and k["o1"] in (1, 2, 3) and k["o2"] in (1, 2, 3), "pc": up and same, "pl": up and same and len(k["g"]) == n}
        if weak and not up: W.pop("lin"); W.pop("lin2"); W.pop("lin2t")     # either is fine
        for f, w in W.items():
            if o[f] != w: return key, "%s is %s" % (f, "accepted" if o[f] else "rejected")
    c.compare(rep, [{"op": "reject", "x": x, "f": [1] * nf, "g": [1] * ng, "o1": i % 4 if i % 5 == 0 else 2, "o2": (i // 4) % 4 if i % 7 == 0 else 2} for i, (x, nf, ng) in enumerate(rj)], "acceptance", rdiff)
