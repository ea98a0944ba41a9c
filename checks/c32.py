from vlib import *
import math
TECHNIQUE = "TLA+ model of differences on three nodes as the quadratic through them and of time steps as linear systems (TLC, exact), replayed into the difference operators, the time stepping and the meshes"
NOTE = ("Diffusion.tla: rows of first and second differences as the derivatives of the quadratic through three nodes, over every line of uneven integer gaps in range; exactness on 1, x, x^2 and the sum of weights are invariants. "
        "Replay: the operators' rows (1e-10), steps of every implicitness must balance the linear system with the end values kept, whatever the solver; then meshes (sorted, exact ends and distances, required point, density) and the sinh map with inverse and slopes, enumerated over ends, sizes and densities.")
def main(c):
    q = c.quick
    rep = Replay(build("numdrv", "asan"))
    inv = ["Exact", "Spreads", "Emitted"]
    runs = c.parallel([lambda: c.mc("Diffusion", {"Gaps": "{1, 2, 3}", "Sizes": "{3, 4}", "Mus": "{-1, 2}", "Vars": "{2}", "Rates": "{1}", "Vals": "{0, 3}", "R": "0"}, inv, name="small lines", workers=4),
                       lambda: c.mc("Diffusion", {"Gaps": "{1, 2, 3, 5, 8}", "Sizes": "3..9", "Mus": "-6..6", "Vars": "0..9", "Rates": "-2..9", "Vals": "-20..20", "R": "8"}, inv, name="lines", simulate=60 if q else 1500, depth=10, seed=c.seed, workers=3)], 2)
    cases = []
    for nm, r in zip(("small", "lines"), runs):
        em = r.emitted
        if nm == "small" and q and len(em) > 4000: em = em[c.seed % 4::4]
        for i, e in enumerate(em):
            h = (1.0, 0.125, 10.0)[i % 3]
            cases.append(dict(e, op="pde", gx=[h * x for x in e["g"]], h=h, m=[x / 16.0 for x in e["mu"]], s=[x / 16.0 for x in e["va"]], r=[x / 64.0 for x in e["ra"]], vv=e["v"], dt=(0.25, 0.01, 1.0)[i // 3 % 3] * min(1.0, h * h), theta=[0.0, 1.0, 0.5, 0.25, 2.0 / 3]))
    def near(a, b, s): return abs(a - b) <= 1e-10 * s
    def diff(k, o):
        key = "nodes %s drift %s variance %s rates %s values %s" % (k["g"], k["mu"], k["va"], k["ra"], k["v"])
        if "exc" in o: return key, o["exc"]
        n, h = len(k["g"]), k["h"]
        W = []
        for i in range(1, n - 1):
            r = k["rows"][i - 1]
            dx, dxx = [x / r["d"] / h for x in r["dx"]], [x / r["d"] / h / h for x in r["dxx"]]
            for nm, w in (("dx", dx), ("dxx", dxx)):
                for a, b in zip(o[nm][i], w):
                    if not near(a, b, max(map(abs, w))): return key, "%s at node %d: %s, expected %s" % (nm, i, o[nm][i], w)
            W.append([k["m"][i] * a + 0.5 * k["s"][i] * b - (k["r"][i] if j == 1 else 0.0) for j, (a, b) in enumerate(zip(dx, dxx))])
        for nm in ("dx", "dxx"):
            if any(o[nm][0]) or any(o[nm][-1]): return key, "%s at the ends: %s, %s" % (nm, o[nm][0], o[nm][-1])
        if o["x"] != k["gx"]: return key, "nodes %s" % o["x"]
        def expl(v, t): return [v[0]] + [v[i] + t * sum(W[i - 1][j] * v[i + j - 1] for j in range(3)) for i in range(1, n - 1)] + [v[-1]]
        for th, u in list(zip(k["theta"], o["u"])) + [(None, o["u"][-1])]:
            rhs = expl(k["v"], k["dt"] if th is None else k["dt"] * (1 - th))
            back = expl(u, -k["dt"] if th is None else -k["dt"] * th)
            big = max(1.0, max(map(abs, u)), max(map(abs, rhs))) * (1 + k["dt"] * max(sum(map(abs, w)) for w in W))
            for i in range(n):
                if not near(back[i], rhs[i], big): return key, "implicitness %s: node %d does not balance: %r, %r" % (th, i, back[i], rhs[i])
    c.compare(rep, cases, "differences", diff)
    ms = []
    for a, b in ((0.0, 1.0), (-3.0, 7.0), (100.0, 100.5), (-1e-3, 1e3)):
        for n in (2, 3, 4, 5, 10, 37, 100):
            ms.append({"op": "mesh", "kind": "uniform", "a": a, "b": b, "n": n})
            for t in (0.0, 0.03, 0.5, 0.73, 0.999, 1.0):
                for den in (0.05, 0.5, 3.0):
                    for req in (False, True): ms.append({"op": "mesh", "kind": "dense", "a": a, "b": b, "n": n, "at": a + t * (b - a) if t < 1 else b, "den": den, "req": req})
        ms += [{"op": "mesh", "kind": "uniform", "a": b, "b": a, "n": 5, "bad": 1}, {"op": "mesh", "kind": "dense", "a": a, "b": b, "n": 5, "at": a - 1, "den": 1.0, "req": True, "bad": 1}, {"op": "mesh", "kind": "dense", "a": a, "b": b, "n": 5, "at": b + 1, "den": 1.0, "req": False, "bad": 1}, {"op": "mesh", "kind": "dense", "a": a, "b": b, "n": 5, "at": b, "den": 0.0, "req": False, "bad": 1}]
    def mdiff(k, o):
        key = "mesh %s" % {x: k[x] for x in k if x != "op"}
        if "exc" in o: return key, o["exc"]
        if o["rej"] != ("bad" in k): return key, "rejected" if o["rej"] else "accepted"
        if o["rej"]: return None
        x, s = o["x"], k["b"] - k["a"]
        tol = 1e-12 * max(abs(k["a"]), abs(k["b"]))
        if o["n"] != k["n"] or x != o["l"] or len(x) != k["n"]: return key, "%d nodes" % o["n"]
        if x[0] != k["a"] or x[-1] != k["b"]: return key, "from %r to %r" % (x[0], x[-1])
        for i in range(k["n"] - 1):
            if not x[i] < x[i + 1]: return key, "nodes %d and %d: %r, %r" % (i, i + 1, x[i], x[i + 1])
            for d in (o["p"][i], o["q"][i]):
                if abs(d - (x[i + 1] - x[i])) > tol: return key, "distance %r between %r and %r" % (d, x[i], x[i + 1])
            if k["kind"] == "uniform" and abs((x[i + 1] - x[i]) - s / (k["n"] - 1)) > tol: return key, "uneven"
        if not o["ends"]: return key, "distances beyond the ends"
        if k["kind"] == "dense":
            if k["req"] and k["n"] > 2 and min(abs(y - k["at"]) for y in x) > tol: return key, "%r is not a node" % k["at"]
            if not k["req"] or k["at"] in (k["a"], k["b"]):
                den = k["den"] * s
                g = [math.asinh((y - k["at"]) / den) for y in x]
                for i in range(k["n"] - 1):
                    if abs((g[i + 1] - g[i]) * (k["n"] - 1) - (g[-1] - g[0])) > 1e-7 * max(1.0, abs(g[0]), abs(g[-1])) * max(1.0, max(abs(k["a"]), abs(k["b"])) / s / k["den"] / 100): return key, "density between nodes %d and %d" % (i, i + 1)
    c.compare(rep, ms, "meshes", mdiff)
    mp = [{"op": "map", "w": w, "r": r, "y": [w * t for t in (-2, -1, -0.3, 0, 1e-3, 0.7, 1.5)]} for w in (0.01, 1.0, 40.0) for r in (1.0, 1.5, 4.0, 100.0)]
    def pdiff(k, o):
        key = "map %g %g" % (k["w"], k["r"])
        if "exc" in o: return key, o["exc"]
        if abs(o["edge"] - k["r"]) > 1e-9 * k["r"]: return key, "slope %r at the width" % o["edge"]
        for y, (x, d1, d2, back, plain) in zip(k["y"], o["v"]):
            if plain != x or abs(back - y) > 1e-11 * (k["w"] + abs(y)): return key, "%r maps to %r, %r and back to %r" % (y, x, plain, back)
            lam = k["w"] / math.sqrt(k["r"] ** 2 - 1) if k["r"] > 1 else None
            e = (lam * math.sinh(y / lam), math.cosh(y / lam), math.sinh(y / lam) / lam) if lam else (y, 1.0, 0.0)
            for a, b, nm in zip((x, d1, d2), e, ("value", "slope", "curvature")):
                if abs(a - b) > 1e-10 * (1e-3 + abs(b)): return key, "%s at %r: %r, expected %r" % (nm, y, a, b)
    c.compare(rep, mp, "maps", pdiff)
