from vlib import *
import math, random
TECHNIQUE = "TLA+ model of recording and back-propagation (reverse recursion = forward gradients, two-stage sums; TLC), programs replayed into the tape"
NOTE = ("Aad.tla: random programs of 33 statement forms over small integers with exact expected values and adjoints of every node, from every variable as the result, in single- and multi-result mode, plus marked recordings with several rounds, on tapes that are cleared or rewound between programs; "
        "AadShape.tla: shapes of real-valued programs with elementary functions, evaluated forwards by the oracle. Block boundaries of the tape are met by padding. Claimed where each elementary operation is differentiable.")
FREE = 16384                                    # the tape's node block; only used to choose paddings

class Dual:
    """value, gradient per input, and a bound on the sizes summed (for the tolerance)"""
    __slots__ = "v", "g", "m"
    def __init__(s, v, g, m): s.v, s.g, s.m = v, g, m
def comb(v, parts):                             # parts: (Dual, partial)
    n = len(parts[0][0].g)
    return Dual(v, [sum(p.g[i] * d for p, d in parts) for i in range(n)], [sum(p.m[i] * abs(d) for p, d in parts) for i in range(n)])
def npdf(x): return math.exp(-0.5 * x * x) / math.sqrt(2 * math.pi)
def ncdf(x): return 0.5 * math.erfc(-x / math.sqrt(2))
class Skip(Exception): pass
def need(c):
    if not c: raise Skip()
def step(f, t, a, b, c, k):
    A, B, C, T = a.v, b.v, c.v, t.v
    if f == "add": return comb(A + B, [(a, 1), (b, 1)])
    if f == "sub": return comb(A - B, [(a, 1), (b, -1)])
    if f == "mul": return comb(A * B, [(a, B), (b, A)])
    if f == "div": need(B); return comb(A / B, [(a, 1 / B), (b, -A / B / B)])
    if f in ("max", "min"): need(abs(A - B) > 1e-9); w = (A > B) == (f == "max"); return comb(A if w else B, [(a, 1.0 * w), (b, 1.0 - w)])
    if f == "neg": return comb(-A, [(a, -1)])
    if f == "pos": return comb(A, [(a, 1)])
    if f == "abs": need(A); return comb(abs(A), [(a, 1 if A > 0 else -1)])
    if f in ("addk", "kadd"): return comb(A + k, [(a, 1)])
    if f == "subk": return comb(A - k, [(a, 1)])
    if f == "ksub": return comb(k - A, [(a, -1)])
    if f in ("mulk", "kmul"): return comb(A * k, [(a, k)])
    if f == "divk": need(k); return comb(A / k, [(a, 1 / k)])
    if f == "kdiv": need(A); return comb(k / A, [(a, -k / A / A)])
    if f in ("maxk", "mink"): need(abs(A - k) > 1e-9); w = (A > k) == (f == "maxk"); return comb(A if w else k, [(a, 1.0 * w)])
    if f == "sq": return comb(A * A, [(a, 2 * A)])
    if f == "exp": need(abs(A) < 30); return comb(math.exp(A), [(a, math.exp(A))])
    if f == "log": need(A > 0); return comb(math.log(A), [(a, 1 / A)])
    if f == "sqrt": need(A > 0); return comb(math.sqrt(A), [(a, 0.5 / math.sqrt(A))])
    if f == "npdf": need(abs(A) < 6); return comb(npdf(A), [(a, -A * npdf(A))])
    if f == "ncdf": need(abs(A) < 6); return comb(ncdf(A), [(a, npdf(A))])
    if f == "erfc": need(abs(A) < 6); return comb(math.erfc(A), [(a, -2 / math.sqrt(math.pi) * math.exp(-A * A))])
    if f == "powk":
        if A == 0: need(k >= 1); return comb(0.0, [(a, 1.0 if k == 1 else 0.0)])
        need(A > 0 or k == int(k)); need(abs(k * math.log(abs(A))) < 60); return comb(A ** k, [(a, k * A ** (k - 1))])
    if f == "pow":
        if A == 0: need(B >= 1); return comb(0.0, [(a, 1.0 if B == 1 else 0.0), (b, 0.0)])
        need(A > 0 and abs(B * math.log(A)) < 60); return comb(A ** B, [(a, B * A ** (B - 1)), (b, math.log(A) * A ** B)])
    if f == "kpow":
        if k == 0: need(A > 0); return comb(0.0, [(a, 0.0)])
        need(k > 0 and abs(A * math.log(k)) < 60); return comb(k ** A, [(a, math.log(k) * k ** A)])
    if f == "fma": return comb(A * B + C, [(a, B), (b, A), (c, 1)])
    if f == "dist": return comb((A + B) * (A - C), [(a, A - C), (b, A - C), (a, A + B), (c, -(A + B))])
    if f == "mix1":
        need(abs(A * B) < 30 and abs(C) < 6); e, n, q = math.exp(-A * B), ncdf(C), 1 + B * B
        return comb(e * n + A / q, [(a, -B * e * n), (b, -A * e * n), (c, e * npdf(C)), (a, 1 / q), (b, -A * 2 * B / q / q)])
    if f == "mix2":
        need(k); L, q = math.log(2 + B * B), math.sqrt(1 + A * A)
        return comb(q - L * C / k, [(a, A / q), (b, -2 * B / (2 + B * B) * C / k), (c, -L / k)])
    if f == "mix3":
        need(abs(A - k) > 1e-9 and abs(B - C * .5) > 1e-9 and abs(A - C) > 1e-9)
        mx, mn = max(B, C * .5), min(A, C); q = 1.5 + A * A
        return comb(abs(A - k) + mx * mn - q ** .3, [(a, 1 if A > k else -1), (b, mn * (B > C * .5)), (c, mn * .5 * (B < C * .5)), (a, mx * (A < C)), (c, mx * (C < A)), (a, -.3 * q ** -.7 * 2 * A)])
    if f == "ladd": return comb(T + A * B, [(t, 1), (a, B), (b, A)])
    if f == "lsub": return comb(T - A, [(t, 1), (a, -1)])
    if f == "lmul": return comb(T * A, [(t, A), (a, T)])
    if f == "ldiv": need(A); return comb(T / A, [(t, 1 / A), (a, -T / A / A)])
    if f == "ladk": return comb(T + k, [(t, 1)])
    if f == "lsbk": return comb(T - k, [(t, 1)])
    if f == "lmlk": return comb(T * k, [(t, k)])
    if f == "ldvk": need(k); return comb(T / k, [(t, 1 / k)])
    if f == "self": return comb(T * T - A, [(t, 2 * T), (a, -1)])
    if f == "set": return Dual(k, [0.0] * len(a.g), [0.0] * len(a.g))
    raise KeyError(f)

def show(k): return "x=%s; %s" % (k["x"], "; ".join("%s t%s a%s b%s c%s k%s" % tuple(s[:6]) for s in k["stms"]))

def real_cases(emitted, seed, nv):
    rnd = random.Random(seed)
    cases = []
    ks = [-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 1e-12, 1e14]
    for m, r in enumerate(emitted):
        ni = 3
        big = m % 4 == 3
        x = [rnd.choice([0.0, 1.0, -1.0, round(rnd.uniform(-3, 3), 4), round(rnd.uniform(0, 4), 4), round(rnd.uniform(0, 1), 3)] + ([1e9 * rnd.random(), 1e-9 * rnd.random()] if big else [])) for _ in range(ni)]
        inp = [Dual(x[i], [float(i == j) for j in range(ni)], [float(i == j) for j in range(ni)]) for i in range(ni)]
        env = inp + [inp[0]] * (nv - ni)
        stms = []
        for f, t, a, b, cc, k in r["stms"]:
            k = ks[k - 1]
            try:
                new = env[a - 1] if f == "copy" else step(f, env[t - 1], env[a - 1], env[b - 1], env[cc - 1], k)
                if not (abs(new.v) < 1e12 and all(z < 1e30 for z in new.m)): continue
            except (Skip, OverflowError): continue
            env[t - 1] = new
            stms.append([f, t, a, b, cc, k, new.v])
        if len(stms) < 3: continue
        cases.append({"x": x, "stms": stms, "nv": nv, "grad": [[d.g, d.m] for d in env]})
    return cases

def main(c):
    exe = build("aaddrv", "asan")
    rep = Replay(exe, per_case_timeout=10)
    q = c.quick
    n = 5 if q else 60
    V = "-4..6"
    runs = c.parallel([
        lambda: c.mc("Aad", {"NI": "3", "NV": "5", "Pre": "7", "Rounds": "3", "PerRound": "4", "Vals": V}, ["ReverseIsForward", "Stages", "Emitted"], name="programs and rounds", simulate=150 * n, depth=30, seed=c.seed, workers=3, defs=""),
        lambda: c.mc("Aad", {"NI": "2", "NV": "4", "Pre": "0", "Rounds": "2", "PerRound": "5", "Vals": V}, ["ReverseIsForward", "Stages", "Emitted"], name="rounds over inputs only", simulate=60 * n, depth=30, seed=c.seed + 1, workers=2),
        lambda: c.mc("Aad", {"NI": "3", "NV": "6", "Pre": "14", "Rounds": "1", "PerRound": "8", "Vals": V}, ["ReverseIsForward", "Stages", "Emitted"], name="long programs", simulate=60 * n, depth=40, seed=c.seed + 2, workers=2),
        lambda: c.mc("AadShape", {"NV": "5", "Steps": "12"}, ["Emitted"], name="shapes", simulate=300 * n, depth=14, seed=c.seed + 3, workers=1)], 4)
    edge = lambda m: (FREE - 1 - (m % 23)) if m % 9 == 4 else 0
    one, marked = [], []
    for r in runs[:3]:
        for m, e in enumerate(r.emitted):
            k = dict(e, op="prog" if e["kind"] == "one" else "marked", clear=m % 5 == 0, pad=edge(m), remark=m % 4 == 1)
            if e["kind"] == "one": one.append(dict(k, multi=False)); one.append(dict(k, multi=True, pad=edge(m) if m % 27 == 4 else 0)) if m % 2 == 0 else None
            else: marked.append(dict(k, multi=m % 3 == 2, pad2=edge(m + 3)))
    def d1(k, o):
        if "exc" in o: return show(k), o["exc"]
        v = [s[6] for s in k["stms"]]
        if o["vals"] != v: return show(k), "values %s, expected %s" % (o["vals"], v)
        for j, (x, e) in enumerate(zip(o["adj"], k["adj"])):
            if x != e: return show(k) + (" (multi)" if k["multi"] else ""), "adjoints of the entries for variable %d are %s, expected %s" % (j + 1, x, e)
    c.compare(rep, one, "programs", d1)
    def d2(k, o):
        key = "x=%s; %s" % (k["x"], " | ".join(";".join("%s t%s a%s b%s c%s k%s" % tuple(s[:6]) for s in r["stms"]) + (" -> %s" % r["res"] if r["res"] else "") for r in k["rounds"]))
        if "exc" in o: return key, o["exc"]
        v = [s[6] for r in k["rounds"] for s in r["stms"]]
        if o["vals"] != v: return key, "values %s, expected %s" % (o["vals"], v)
        odd = [sum(r["g"][i] for j, r in enumerate(k["rounds"]) if j % 2) for i in range(len(k["x"]))]
        if k["multi"] and o["odd"][:len(odd)] != odd: return key + " (multi)", "adjoints of the second result are %s, expected %s" % (o["odd"], odd)
        if o["adj"] != k["adj"]: return key + (" (multi)" if k["multi"] else ""), "adjoints after %d rounds are %s, expected %s" % (len(k["rounds"]) - 1, o["adj"], k["adj"])
    c.compare(rep, marked, "marked recordings", d2)
    real = [dict(k, op="prog", clear=m % 7 == 0, pad=edge(m), multi=m % 3 == 1) for m, k in enumerate(real_cases(runs[3].emitted, c.seed, 5))]
    for k in real: k["pad"] = k["pad"] if not k["multi"] else 0
    def d3(k, o):
        if "exc" in o: return show(k), o["exc"]
        for s, x in zip(k["stms"], o["vals"]):
            if not close(x, s[6], 1e-9) and not (s[0] in ("npdf", "ncdf", "erfc", "mix1") and close(x, s[6], 1e-6)): return show(k), "value of %s is %s, expected %s" % (s[0], x, s[6])
        for j, (row, (g, m)) in enumerate(zip(o["adj"], k["grad"])):
            for i in range(3):
                x = row[i]
                if isinstance(x, str) or not abs(x - g[i]) <= 1e-6 * m[i] + 1e-300: return show(k) + (" (multi)" if k["multi"] else ""), "derivative of variable %d in input %d is %s, expected %s" % (j + 1, i + 1, x, g[i])
    c.compare(rep, [{a: b for a, b in k.items()} for k in real], "elementary functions", d3)
    # every form alone on a grid of arguments
    grid = [-3.0, -1.0, -0.5, 0.0, 1e-8, 0.5, 1.0, 2.0, 3.5]
    forms = sorted({s[0] for r in runs[3].emitted for s in r["stms"]})
    alone = []
    for f in forms:
        for a in grid:
            for b in grid:
                for k in (-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0):
                    x = [a, b, 0.7]
                    u = [Dual(x[i], [float(i == j) for j in range(3)], [float(i == j) for j in range(3)]) for i in range(3)]
                    try: w = u[0] if f == "copy" else step(f, u[1], u[0], u[1], u[2], k)
                    except (Skip, OverflowError): continue
                    alone.append({"op": "prog", "x": x, "stms": [["copy", 4, 2, 1, 1, 0, x[1]], [f, 4, 1, 2, 3, k, w.v]], "nv": 4, "grad": [[d.g, d.m] for d in u + [w]], "clear": False, "pad": 0, "multi": False})
    c.compare(rep, alone if not q else alone[c.seed % 2::2], "single statements", d3)
    c.cov["parameters"] = {"programs": len(one), "marked": len(marked), "real": len(real)}
