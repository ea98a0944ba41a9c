from vlib import *
TECHNIQUE = "TLA+ model of smoothing and of nearest solutions, problems built around exact answers (TLC), replayed into the smoother and the underdetermined search"
NOTE = ("Fitting.tla: smoothing problems built backwards from exact answers by the balance of forces, and linear underdetermined problems built from a multiplier so that the step is the nearest one in the weight norm; TLC checks both on the model, exhaustive on small and sampled on larger instances. "
        "Replay: the smoother must balance (1e-9) and return the exact answer; the search must meet its tolerance, linear functions at the nearest solution (1e-6), slightly bent ones at a solution. Approximate and searches with gradients withheld are outside.")
def main(c):
    q = c.quick
    rep = Replay(build("numdrv", "asan"))
    inv = ["Kept", "Nearest", "Emitted"]
    base = {"Sizes": "{2, 3}", "Gaps": "{1, 3}", "Ws": "{1, 2}", "Ls": "{0, 2}", "Zs": "{-1, 2}", "Js": "{-1, 0, 2}", "Shapes": "{<<1, 2>>}", "R": "0"}
    big = {"Sizes": "2..12", "Gaps": "{1, 2, 3, 4, 6, 12}", "Ws": "1..6", "Ls": "{0, 1, 2, 5, 20}", "Zs": "-9..9", "Js": "-4..4", "Shapes": "{<<1, 1>>, <<1, 2>>, <<1, 5>>, <<2, 2>>, <<2, 3>>, <<2, 6>>, <<3, 4>>, <<4, 9>>}", "R": "10"}
    runs = c.parallel([lambda: c.mc("Fitting", base, inv, name="small fits", workers=4), lambda: c.mc("Fitting", big, inv, name="fits", simulate=60 if q else 1500, depth=12, seed=c.seed, workers=3)], 2)
    sm, un = [], []
    for r in runs:
        for i, e in enumerate(r.emitted):
            if e["kind"] == "smooth":
                x, w, l, z, y = e["a"]
                t = (1.0, 0.1, 40.0)[i % 3]
                if i % 4 == 0 and l: w = [1] * len(w)          # the default weights; the answer is then found from the balance only
                sm.append({"op": "smooth", "x": [t * v + 3.0 for v in x], "w": w, "l": l * t, "y": [a / b for a, b in y], "z": z if w == e["a"][1] else None})
            else:
                j, w, x, step, f = e["a"]
                for bend in (0.0, 0.01):
                    un.append({"op": "under", "jj": j, "w": w, "x0": x, "p": [a + b / 12.0 for a, b in zip(x, step)], "bend": bend, "tol": (1e-6, 1e-9)[i % 2], "evals": (60, 200)[i % 2] , "grads": (10, 40)[i % 2], "step": step})
    def sdiff(k, o):
        key = "smoothing %s at %s weights %s lambda %g" % (k["y"], k["x"], k["w"], k["l"])
        if "exc" in o: return key, o["exc"]
        z, x, w, y, n = o["z"], k["x"], k["w"], k["y"], len(k["x"])
        if len(z) != n: return key, "%d values" % len(z)
        cp = [k["l"] / (x[i + 1] - x[i]) for i in range(n - 1)]
        s = max(1.0, max(map(abs, y))) * (1 + max(w) + 2 * max(cp))
        for i in range(n):
            pull = (cp[i] * (z[i + 1] - z[i]) if i + 1 < n else 0.0) - (cp[i - 1] * (z[i] - z[i - 1]) if i else 0.0)
            if abs(w[i] * (z[i] - y[i]) - pull) > 1e-9 * s: return key, "value %d of %s does not balance" % (i + 1, z)
        if k["z"] and any(abs(a - b) > 1e-9 * s for a, b in zip(z, k["z"])): return key, "%s, expected %s" % (z, k["z"])
        if "z1" in o and any(abs(a - b) > 1e-12 * s for a, b in zip(z, o["z1"])): return key, "weights left out: %s, not %s" % (o["z1"], z)
    c.compare(rep, sm, "smoothing", sdiff)
    def rank(m):
        from fractions import Fraction
        m, r = [[Fraction(v) for v in row] for row in m], 0
        for col in range(len(m[0])):
            p = next((i for i in range(r, len(m)) if m[i][col] != 0), None)
            if p is None: continue
            m[r], m[p] = m[p], m[r]
            for i in range(r + 1, len(m)): m[i] = [a - b * m[i][col] / m[r][col] for a, b in zip(m[i], m[r])]
            r += 1
        return r
    un = [k for k in un if rank(k["jj"]) == len(k["jj"])]
    def udiff(k, o):
        key = "search J %s weights %s from %s to %s bend %g" % (k["jj"], k["w"], k["x0"], k["p"], k["bend"])
        if "exc" in o: return key, o["exc"]
        if o["gave"]: return key, "gave up after %d evaluations" % o["evals"]
        if any(abs(f) >= k["tol"] for f in o["f"]): return key, "left %s with tolerance %g" % (o["f"], k["tol"])
        if k["bend"] == 0.0:
            for a, b in zip(o["x"], k["p"]):
                if abs(a - b) > 1e-6 * (1 + max(map(abs, k["p"]))): return key, "found %s, nearest is %s" % (o["x"], k["p"])
    c.compare(rep, un, "search", udiff)
