from vlib import *
TECHNIQUE = "TLA+ models of arrays, matrices and reports as functions of coordinates, and of the table layout language (TLC), histories and formats replayed into the containers"
NOTE = ("Grid.tla: every history of 2 operations (write, resize, fill, scale, swap, copy, move, append, transpose, exchange with a vector) over every pair of small shapes with zero sizes, for matrices, cubes and arrays of 1 to 4 dimensions; simulated histories of 15. "
        "Reports.tla: every history of 2 operations with addresses just outside the range in every axis, simulated ones of 18. Layout.tla: every format of up to 4 (quick) or 5 steps, simulated larger ones, and the well-formedness of every token string up to length 4 or 5. All cells through every view after every step, under the address sanitizer. Arrays do not check coordinates, as documented by their interface.")
def shapes(ss): return "{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, s)) for s in ss)
def main(c):
    q = c.quick
    rep = Replay(build("griddrv", "asan"))
    M = [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2)]
    C = [(1, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (0, 1, 2), (2, 2, 2), (2, 0, 1)]
    A = [(1,), (3,), (0,), (2, 1), (1, 2), (2, 2), (1, 3, 1), (2, 1, 2)]
    big = [(1, 2, 3), (3, 1, 2), (2, 3, 1), (3, 3, 3), (0, 2, 2), (2, 2, 2), (4, 1, 1)]
    A4 = [(2, 1, 3, 2), (1, 2, 2, 3), (3, 2, 1, 1), (2, 2, 2, 2), (1, 1, 1, 1), (2, 0, 2, 1)]
    MB = [(0, 0), (1, 1), (4, 3), (3, 4), (5, 5), (2, 3), (0, 3), (6, 1), (1, 6), (7, 3)]
    inv = ["Total", "Emitted"]
    SH = "{<<<<1, 0>>>>, <<<<2, 1>>, <<2, 2>>>>, <<<<0, 1>>, <<2, 0>>>>, <<<<1, 2>>, <<1, 1>>, <<2, 0>>>>}"
    SB = "{<<<<0, 1>>, <<3, 2>>, <<2, 3>>>>, <<<<2, 1>>, <<2, 2>>>>, <<<<1, 1>>, <<2, 1>>, <<3, 0>>, <<2, 1>>>>, <<<<0, 2>>>>}"
    lay = {"MaxStack": "3", "Args": "<<<<1, 1>>, <<2, 1>>, <<2, 3>>>>", "Toks": '{"1"}', "MaxToks": "0"}
    jobs = [("matrix", lambda: c.mc("Grid", {"Kind": '"matrix"', "ShapeSet": shapes(M), "MaxOps": "2"}, inv, name="matrices", workers=2)),
            ("cube", lambda: c.mc("Grid", {"Kind": '"cube"', "ShapeSet": shapes(C), "MaxOps": "2"}, inv, name="cubes", workers=2)),
            ("array", lambda: c.mc("Grid", {"Kind": '"array"', "ShapeSet": shapes(A), "MaxOps": "2"}, inv, name="arrays", workers=2)),
            ("matrix", lambda: c.mc("Grid", {"Kind": '"matrix"', "ShapeSet": shapes(MB), "MaxOps": "15"}, inv, spec="RSpec", name="long matrix histories", simulate=60 if q else 2500, depth=17, seed=c.seed, workers=2)),
            ("cube", lambda: c.mc("Grid", {"Kind": '"cube"', "ShapeSet": shapes(big), "MaxOps": "12"}, inv, spec="RSpec", name="long cube histories", simulate=25 if q else 1200, depth=14, seed=c.seed, workers=2)),
            ("array", lambda: c.mc("Grid", {"Kind": '"array"', "ShapeSet": shapes(A4), "MaxOps": "12"}, inv, spec="RSpec", name="long array histories", simulate=25 if q else 1200, depth=14, seed=c.seed, workers=2)),
            ("report", lambda: c.mc("Reports", {"Shapes": SH, "MaxOps": "2", "Beyond": "2"}, inv, name="reports", workers=2)),
            ("report", lambda: c.mc("Reports", {"Shapes": SB, "MaxOps": "18", "Beyond": "4"}, inv, spec="RSpec", name="long report histories", simulate=40 if q else 2500, depth=20, seed=c.seed, workers=2)),
            ("layout", lambda: c.mc("Layout", dict(lay, MaxOps="4" if q else "5"), ["Placed", "Emitted"], name="all layouts", workers=3)),
            ("layout", lambda: c.mc("Layout", dict(lay, MaxStack="4", MaxOps="12"), ["Placed", "Emitted"], spec="RSpec", name="large layouts", simulate=300 if q else 8000, depth=13, seed=c.seed, workers=2)),
            ("tokens", lambda: c.mc("Layout", dict(lay, MaxOps="0", Toks='{"1", "0", "T", "*", "(", ")", ",", ":"}', MaxToks="4" if q else "5"), ["TEmitted"], spec="TSpec", name="all token strings", workers=2))]
    runs = c.parallel([j for _, j in jobs], 4)
    def gdiff(k, o):
        key = "%s %s" % (k["kind"], " ".join("%s%s" % (h["op"], h["x"]) for h in k["h"][1:]))
        key += " from %s %s" % (k["h"][0]["a"]["sz"], k["h"][0]["b"]["sz"])
        if "exc" in o: return key, o["exc"]
        for i, (h, s) in enumerate(zip(k["h"], o["s"])):
            for w in "ab":
                if s[w] != h[w]: return key, "after %s (step %d) %s is %s, expected %s" % (h["op"], i, w, s[w], h[w])
            if h["op"] == "Y" and s["ok"] != h["ok"]: return key, "exchange with a vector: %s" % s["ok"]
    def rdiff(k, o):
        key = "%s: %s" % (k["sh"], " ".join("%s%s" % (h["op"], h["x"]) for h in k["h"]))
        if "exc" in o: return key, o["exc"]
        if not o["unknown"]: return key, "an unknown axis is accepted"
        for i, (h, s) in enumerate(zip(k["h"], o["s"])):
            for w in ("ok", "r", "sz", "v", "hd"):
                if s[w] != h[w]: return key, "after %s%s (step %d) %s is %s, expected %s" % (h["op"], h["x"], i + 1, w, s[w], h[w])
    def ldiff(k, o):
        if "exc" in o: return k["f"], o["exc"]
        if o["ok"] != k["ok"]: return k["f"], "accepted" if o["ok"] else "rejected"
        if k["ok"] and "want" in k and o["t"] != k["want"]: return k["f"], "gives %s, expected %s" % (o["t"], k["want"])
    NM = [["alpha", "beta", "gamma", "delta"], ["d", "c", "b", "a"], ["m", "A", "z", "b"]]
    for m, ((kind, _), r) in enumerate(zip(jobs, runs)):
        em, name = r.emitted, "%s %d" % (kind, m + 1)
        if kind in ("matrix", "cube", "array"):
            if q and len(em) > 9000: em = em[c.seed % 3::3]
            c.compare(rep, [dict(e, op="grid", kind=kind) for e in em], name, gdiff)
        elif kind == "report":
            if q and len(em) > 9000: em = em[c.seed % 8::8]
            c.compare(rep, [dict(e, op="report", names=NM[m % 3]) for m, e in enumerate(em)], name, rdiff)
        elif kind == "layout":
            seen = {"".join(e["s"]): e for e in em}
            c.compare(rep, [{"op": "layout", "f": f, "args": [[1, 1], [2, 1], [2, 3]], "ok": e["r"] * e["c"] > 0, "want": [[100 * k + 10 * i + j if k else 0 for k, i, j in row] for row in e["t"]]} for f, e in sorted(seen.items())], name, ldiff)
        else:
            c.compare(rep, [{"op": "layout", "f": "".join(e["s"]), "args": [[1, 1], [2, 1], [2, 3]], "ok": e["ok"]} for e in em], name, ldiff)
    mk = [([["a", 1]], True), ([], False), ([["a", 0]], True), ([["a", 0], ["b", 1]], True), ([["a", 1], ["b", 0]], False), ([["a", 1], ["b", -1]], False), ([["a", -1]], False), ([["a", 1], ["A", 2]], False), ([["a", 2], ["b", 1], ["a", 3]], False), ([["b", 2], ["a", 2]], True)]
    c.compare(rep, [{"op": "made", "axes": a, "ok": ok} for a, ok in mk], "axes", lambda k, o: None if o.get("ok") == k["ok"] else (str(k["axes"]), str(o)))
