from vlib import *
TECHNIQUE = "TLA+ model of banded matrices filled cell by cell, their products and the systems they define; model-generated systems replayed into the real storage, decompositions and solvers"
NOTE = ("Linear.tla: every tri-diagonal matrix of size up to 3 over small integers, every band of size 3, random matrices of sizes up to 9 with every kind of band, symmetric positive definite, semi-definite, symmetric and general, with random writes on top; "
        "the expected cells, products on both sides, existence of the decomposition (leading minors), solutions, quadratic forms and correlated deviates are computed exactly on integers. Covers tri-diagonal, banded, dense Cholesky, lower triangular and diagonal decompositions, conjugate gradients from any start, and products of rectangular matrices with aliased destinations. "
        "Outside: indices outside the matrix, solving semi-definite systems, band storage wider on one side (which may refuse a decomposition), the lower band accumulator. Tolerance 1e-7 relative to the largest value.")
def shapes(ss): return "{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, s)) for s in ss)
def near(a, b, tol=1e-7):
    if isinstance(a, str) or len(a) != len(b): return False
    s = max([1.0] + [abs(x) for x in b])
    return all(isinstance(x, (int, float)) and abs(x - y) <= tol * s for x, y in zip(a, b))
def main(c):
    q = c.quick
    rep = Replay(build("lindrv", "asan"))
    inv = ["Adjoint", "Banded", "Definite", "Emitted"]
    big = [(5, 1, 1), (6, 1, 1), (9, 1, 1), (1, 1, 1), (4, 0, 1), (5, 1, 0), (4, 0, 0)]
    bands = [(4, 2, 2), (5, 2, 2), (5, 3, 3), (4, 2, 0), (4, 0, 2), (5, 1, 2), (5, 2, 1), (3, 2, 2), (2, 2, 2), (5, 4, 4)]
    wide = [(8, 2, 2), (9, 3, 3), (12, 2, 2), (7, 6, 6), (6, 2, 2)]
    mul = [(r, k, k2, s) for r, k, k2, s in ((1, 1, 1, 1), (2, 3, 3, 2), (3, 2, 2, 4), (3, 3, 3, 3), (2, 3, 2, 3), (4, 1, 1, 4), (1, 4, 4, 1), (5, 2, 3, 5), (17, 18, 18, 2), (33, 16, 16, 1), (16, 35, 35, 3), (20, 17, 17, 17))]
    V = "{-2, -1, 0, 1, 2, 3}"
    jobs = [("b", lambda: c.mc("Linear", {"Shapes": shapes([(1, 0, 0), (2, 1, 1), (3, 1, 1)]), "Vals": "{-1, 0, 2}", "Loads": '{"all"}', "MaxOps": "0"}, inv, name="all small tri-diagonals", workers=3)),
            ("b", lambda: c.mc("Linear", {"Shapes": shapes([(2, 1, 1), (2, 2, 2), (2, 2, 0)]), "Vals": "{-1, 1}", "Loads": '{"all"}', "MaxOps": "1" if q else "2"}, inv, name="all writes", workers=3)),
            ("b", lambda: c.mc("Linear", {"Shapes": shapes(big), "Vals": V, "Loads": '{"spd", "sym", "any"}', "MaxOps": "0"}, inv, name="tri-diagonals", spec="RSpec", simulate=600 if q else 12000, depth=3, seed=c.seed, workers=2)),
            ("b", lambda: c.mc("Linear", {"Shapes": shapes(bands), "Vals": V, "Loads": '{"spd", "sym", "any"}', "MaxOps": "0"}, inv, name="bands", spec="RSpec", simulate=600 if q else 12000, depth=3, seed=c.seed, workers=2)),
            ("b", lambda: c.mc("Linear", {"Shapes": shapes(wide), "Vals": V, "Loads": '{"spd"}', "MaxOps": "0"}, inv, name="large bands", spec="RSpec", simulate=200 if q else 4000, depth=3, seed=c.seed, workers=2)),
            ("b", lambda: c.mc("Linear", {"Shapes": shapes(big + bands), "Vals": V, "Loads": '{"spd", "sym", "any"}', "MaxOps": "6"}, inv, name="written bands", spec="RSpec", simulate=400 if q else 8000, depth=9, seed=c.seed, workers=2)),
            ("s", lambda: c.mc("Linear", {"Shapes": shapes([(n, n, n) for n in (1, 2, 3, 4, 6, 8)]), "Vals": V, "Loads": '{"psd"}', "MaxOps": "0"}, ["Adjoint", "Emitted"], name="semi-definite", spec="RSpec", simulate=300 if q else 5000, depth=3, seed=c.seed, workers=2)),
            ("m", lambda: c.mc("Linear", {"Shapes": shapes(mul), "Vals": V, "Loads": "{}", "MaxOps": "0"}, ["Assoc", "MEmitted"], name="products", spec="MSpec", simulate=250 if q else 3000, depth=2, seed=c.seed, workers=2))]
    runs = c.parallel([j for _, j in jobs], 4)
    def key(k): return "%s %s %s x=%s" % (k["load"], k["sh"], k["m"], k["x"])
    def dec(o, p, k, ml, mr, ok, mult=True):
        for f, want in (("ml", ml), ("mla", ml), ("mr", mr), ("mra", mr)):
            if mult and not near(o[p + f], want): return "%s%s gives %s, expected %s" % (p, f, o[p + f], want)
        for f in ("sl", "sla", "sr", "sra"):
            if ok is None: continue
            if ok and not near(o[p + f], k["x"]): return "%s%s gives %s, expected %s" % (p, f, o[p + f], k["x"])
            if not ok and o[p + f] != "rejected": return "%s%s gives %s for a singular matrix" % (p, f, o[p + f])
    def bdiff(k, o):
        if "exc" in o: return key(k), o["exc"]
        tri = k["sh"][1] <= 1 and k["sh"][2] <= 1
        a, b = (1, 1) if tri else k["sh"][1:]
        want = [h["op"] != "C" and (h["j"] - h["i"] > a or h["i"] - h["j"] > b) for h in k["h"][1:]]
        if o["rej"] != want: return key(k), "writes refused: %s, expected %s" % (o["rej"], want)
        if o["size"] != k["sh"][0]: return key(k), "size %s" % o["size"]
        flat = [x for r in k["m"] for x in r]
        if o["cells"] != flat: return key(k), "cells %s, expected %s" % (o["cells"], flat)
        for f in ("ml", "mr"):
            if not near(o[f], k[f]): return key(k), "product %s is %s, expected %s" % (f, o[f], k[f])
        if o["sym"] != k["sym"]: return key(k), "symmetric: %s" % o["sym"]
        if k["ok"] != "maybe" and o["ok"] != (k["ok"] == "yes"): return key(k), "decomposition %s" % ("accepted" if o["ok"] else "rejected")
        if o["ok"]:
            why = dec(o, "d", k, k["ml"], k["mr"], None if k["ok"] == "maybe" and not k["spd"] else True, k["ok"] == "yes" or k["spd"])
            if why: return key(k), why
            if k["sym"]:
                if not o["symdec"]: return key(k), "no symmetric decomposition"
                if k["spd"]:
                    qf = [x for r in k["q"] for x in r]
                    if not near(o["q"], qf): return key(k), "quadratic form %s, expected %s" % (o["q"], qf)
                    if k["corr"] and not tri and not near(o["corr"], k["corr"]): return key(k), "correlated %s, expected %s" % (o["corr"], k["corr"])
        if k["spd"]:
            for f in ("cg0", "cg1", "cg2", "bcg0", "bcg1", "bcg2"):
                if not near(o[f], k["x"], 1e-5): return key(k), "%s gives %s, expected %s" % (f, o[f], k["x"])
    def ddiff(k, o):
        if "exc" in o: return key(k), o["exc"]
        why = dec(o, "t", k, k["ll"], k["lr"], k["lok"]) or dec(o, "g", k, k["dx"], k["dx"], k["lok"])
        if why: return key(k), why
        want = "rejected" if k["dneg"] else [abs(k["m"][i][i]) ** 0.5 * x for i, x in enumerate(k["x"])]
        if (o["gcorr"] != want) if k["dneg"] else not near(o["gcorr"], want): return key(k), "diagonal deviates %s, expected %s" % (o["gcorr"], want)
        if "cok" not in o: return None
        if not any(x for r in k["m"] for x in r): return None
        if not o["cok"]: return key(k), "Cholesky rejected"
        why = dec(o, "c", k, k["ml"], k["ml"], True if k["spd"] else None)
        if why: return key(k), why
        if not near(o["cm"], k["ml"]) or (k["spd"] and not near(o["cs"], k["x"])): return key(k), "symmetric multiply %s, solve %s" % (o["cm"], o["cs"])
        if k["corr"] and not near(o["ccorr"], k["corr"]): return key(k), "correlated %s, expected %s" % (o["ccorr"], k["corr"])
        if k["spd"]:
            qf = [x for r in k["q"] for x in r]
            if not near(o["cq"], qf): return key(k), "quadratic form %s, expected %s" % (o["cq"], qf)
            if "solve" in o or not near(o["solve0"], k["x"]) or not near(o["solve1"], k["w"]): return key(k), "in-place solve %s" % (o.get("solve0"),)
    def mdiff(k, o):
        ky = "%s %s*%s" % (k["d"], k["a"], k["b"])
        if "exc" in o: return ky[:300], o["exc"]
        r, n, n2, s = k["d"]
        ab = [r, s] + [x for row in k["ab"] for x in row]
        for f in ("ab", "ab2", "aba", "abb"):
            if (o[f] != ab) if k["fits"] else o[f] != "rejected": return ky[:300], "%s is %s, expected %s" % (f, o[f], ab if k["fits"] else "rejection")
        jj = [r, r] + [100 * i + j + (k["jj"][i][j] if j >= i else 0) for i in range(r) for j in range(r)]
        for f, want in (("av", k["av"]), ("ava", k["av"]), ("ua", k["ua"]), ("uaa", k["ua"]), ("wip", [k["wip"]]), ("jj", jj)):
            if o[f] != want: return ky[:300], "%s is %s, expected %s" % (f, o[f], want)
        if n != s and o["bv"] != "rejected": return ky[:300], "product of unfit sizes accepted"
    for i, ((kind, _), r) in enumerate(zip(jobs, runs)):
        em = r.emitted
        for e in em:
            if kind != "m": e["w0"] = [[a, b, v] for a, row in enumerate(e["h"][0]["v"]) for b, v in enumerate(row) if v]
        if kind == "b": c.compare(rep, [dict(e, op="band") for e in em], "banded %d" % (i + 1), bdiff)
        if kind != "m": c.compare(rep, [dict(e, op="dense") for e in em], "dense %d" % (i + 1), ddiff)
        else: c.compare(rep, [dict(e, op="mul") for e in em], "products", mdiff)
