from vlib import *
import math
TECHNIQUE = "TLA+ stream-position machine and exact MRG32k3a recurrence (TLC), behaviours replayed into the generators"
NOTE = ("RandomStream.tla enumerates histories of draws, skips and clones and names each drawn vector by its stream position; Mrg.tla steps (and jumps along) the published recurrence in exact "
        "arithmetic. Every history is replayed for both generator kinds, several seeds, dimensions and precisions: vectors must be the named ones, uniforms strictly inside (0,1), "
        "odd vectors the mirror images of even ones, far skips the jumped states.")
M1P1 = 4294967088

def bits(n): return [int(b) for b in bin(n)[2:]][::-1] if n else []
def phi(z): return 0.5 * math.erfc(-z / math.sqrt(2))

def main(c):
    exe = build("randdrv", "asan")
    rep = Replay(exe)
    seeds = [1024, 1, 12345, 987654321] if c.quick else [1024, 1, 2, 7, 12345, 987654321, 2000000000, 65535, 65536, 31337 + c.seed]
    dims = [1, 2, 3, 5]
    skips = "{0, 1, 2, 5}" if c.quick else "{0, 1, 2, 3, 4, 7}"
    need = 420 if c.quick else 700
    far = [1000, 4097, 2 ** 20 + 1, 2 ** 33 + 6, 2 ** 40 + 3]
    if not c.quick: far += [2 ** k + j for k in (10, 15, 21, 31, 32, 35, 44) for j in (-1, 0, 1)]
    pos = sorted({q for n in far for d in dims for q in (n // 2 * d, n * d)})
    tset = lambda ps: "{" + ", ".join("<<" + ", ".join(map(str, bits(p))) + ">>" for p in ps) + "}"
    jobs = [lambda: c.mc("Mrg", {"Seeds": "{%s}" % ", ".join(map(str, seeds)), "Starts": "{<<>>}", "Steps": str(need)}, ["Reduced", "Inside", "Emitted"], name="mrg", workers=4),
            lambda: c.mc("Mrg", {"Seeds": "{%s}" % ", ".join(map(str, seeds[:2])), "Starts": tset(list(range(1, 20)) + pos), "Steps": "10"}, ["Reduced", "Inside", "Emitted"], name="mrgjump", workers=4),
            lambda: c.mc("RandomStream", {"Skips": skips, "MaxOps": "5" if c.quick else "6", "MaxObjs": "2"}, ["TypeOk", "Emitted"], name="histories", workers=4, heap="4g"),
            lambda: c.mc("RandomStream", {"Skips": "{0, 1, 2, 3, 8, 17, 30, 41}", "MaxOps": "14", "MaxObjs": "4"}, ["TypeOk", "Emitted"], name="long", spec="RSpec",
                         simulate=100 if c.quick else 2000, depth=16, seed=c.seed, workers=4)]
    mrg, jump, hist, long = c.parallel(jobs)
    raw = {}
    for r in mrg.emitted + jump.emitted:
        p = sum(b << i for i, b in enumerate(r["start"])) + r["k"] - 1
        v = (r["h"] * 65536 + r["l"]) / M1P1
        if raw.setdefault((r["seed"], p), v) != v: raise MachineError("jump-ahead and stepping disagree in the specification")
    c.cov["mrg_values"] = len(raw)
    # tables of the streams
    nvec = need // max(dims)
    conf = [(k, s, d, p) for k in ("MRG32", "IRN") for s in seeds for d in dims for p in (False, True)]
    base = [{"op": "stream", "kind": k, "seed": s, "dim": d, "precise": p, "bb": False, "h": [[w, 1, i] for i in range(nvec)]} for k, s, d, p in conf for w in "UN"]
    for k, s, d, p in conf:
        for w in "UN": base.append({"op": "wrapper", "kind": k, "seed": s, "dim": d, "precise": p, "bb": False, "h": [[w, 1, i] for i in range(20)]})
    inv = {}
    us = sorted(set(raw.values()))
    for p in (False, True):
        o = list(rep.run([{"op": "inv", "precise": p, "u": us}]))[0][1]
        if "v" not in o: raise MachineError("no inverse normal: %s" % str(o)[:300])
        inv[p] = dict(zip(us, o["v"]))
    def mrgvec(w, s, d, p, i):
        if w == "U":
            v = [raw[s, i // 2 * d + j] for j in range(d)]
            return [1.0 - u for u in v] if i % 2 else v
        return [inv[p][raw[s, i * d + j]] for j in range(d)]
    table = {}
    for k, o in rep.run(base):
        if k["op"] == "stream" and "v" in o: table[k["kind"], k["seed"], k["dim"], k["precise"], k["h"][0][0]] = o["v"]
    def expect(k, w, i):
        if k["kind"] == "MRG32": return mrgvec(w, k["seed"], k["dim"], k["precise"], i)
        t = table.get((k["kind"], k["seed"], k["dim"], k["precise"], w))
        return t[i] if t and i < len(t) else None
    def diff(k, o):
        name = "%s seed=%s dim=%s precise=%s %s %s" % (k["kind"], k["seed"], k["dim"], k["precise"], k["op"], " ".join("%s%s:%s" % tuple(h) for h in k["h"][:16]))
        if "exc" in o: return name, "failed: %s" % o["exc"]
        if o["ndim"] != k["dim"]: return name, "dimension %s" % o["ndim"]
        draws = [h for h in k["h"] if h[0] in "UN"]
        prev = None
        for h, v in zip(draws, o["v"]):
            if h[0] == "U" and not all(0 < u < 1 for u in v): return name, "uniform outside (0,1): %s" % v
            if h[2] < 0: continue
            e = expect(k, h[0], h[2])
            if e is None or not close(v, e, 1e-14 if h[0] == "U" else 1e-12): return name, "%s vector %s of generator %s is %s, expected %s" % (h[0], h[2], h[1], v, e)
            if h[0] == "U" and h[2] % 2 and prev and prev[0] == (h[1], h[2] - 1) and not close([1.0 - u for u in prev[1]], v, 1e-15):
                return name, "vector %d is not the mirror image of vector %d" % (h[2], h[2] - 1)
            if h[0] == "U": prev = ((h[1], h[2]), v)
    c.compare(rep, base, "fresh streams", diff)
    # normals are the quantiles of the uniforms
    def dinv(k, o):
        for u, z in zip(k["u"], o["v"]):
            if abs(phi(z) - u) > (1e-9 if k["precise"] else 2e-4): return "inverse normal of %r" % u, "%r, whose probability is %r" % (z, phi(z))
    c.compare(rep, [{"op": "inv", "precise": p, "u": us} for p in (False, True)], "normal quantiles", dinv)
    cases = []
    for n, r in enumerate(hist.emitted + long.emitted):
        for m in range(1 if c.quick else 2):
            k, s, d, p = conf[(n * 7 + m * 5 + c.seed) % len(conf)]
            cases.append({"op": "stream", "kind": k, "seed": s, "dim": d, "precise": p, "bb": False, "h": r["h"]})
    c.compare(rep, cases, "histories", diff)
    fars = [{"op": "stream", "kind": "MRG32", "seed": s, "dim": d, "precise": p, "bb": False,
             "h": ([["N", 1, -1]] * (n % 3)) + [["S", 1, n], [w, 1, n], [w, 1, n + 1]][:2 if w == "U" and n % 2 else 3]}
            for s in seeds[:2] for d in dims for p in (False, True) for n in far for w in "UN"]
    c.compare(rep, fars, "far skips", diff)
    irn = []
    for d in (1, 3):
        for w in "UN":
            k = {"op": "stream", "kind": "IRN", "seed": 77, "dim": d, "precise": False, "bb": False, "h": [[w, 1, i] for i in range(1300)]}
            o = list(rep.run([k]))[0][1]
            table["IRN", 77, d, False, w] = o.get("v", [])
            irn += [dict(k, h=[["S", 1, n], [w, 1, n], [w, 1, n + 1]]) for n in (500, 999, 1000, 1297)]
    c.compare(rep, irn, "IRN skips", diff)
