from vlib import *
import math
TECHNIQUE = "TLA+ model of options on an exact random walk, on which TLC checks the relations between neighbouring options; its behaviours are replayed into the normal and lognormal formulas, their derivatives and implied volatilities"
NOTE = ("Quotes.tla: prices of puts, calls and straddles on an exact symmetric random walk; TLC checks parity, monotonicity, convexity, symmetry, scale and bounds between neighbouring quotes, and walks histories of quotes. "
        "Replay: the same neighbours must be ordered the same way by the formulas (Bachelier, Black, over time, Merton), values and greeks and adjoints equal to closed forms in erfc (1e-12 of the scale, greeks 1e-10), implied volatilities reprice and prices no volatility gives are rejected; the normal distribution and its inverse on a grid of 1,500 points. Guesses for implied volatilities lie within about a third of the answer; time values below rounding are outside.")
def N(z): return 0.5 * math.erfc(-z / math.sqrt(2.0))
def n(z): return math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)
def payout(f, k, b): return max(f - k, 0.0) * (b != 0) + max(k - f, 0.0) * (b != 1)
def ref(black, f, k, v, b):
    """price and its derivatives in forward, volatility and strike of a put (0), call (1) or both (2)"""
    if b == 2: return [x + y for x, y in zip(ref(black, f, k, v, 0), ref(black, f, k, v, 1))]
    s = 1 if b else -1
    if black:
        d = math.log(f / k) / v + 0.5 * v
        return [s * (f * N(s * d) - k * N(s * (d - v))), s * N(s * d), f * n(d), -s * N(s * (d - v))]
    d = (f - k) / v
    return [s * (f - k) * N(s * d) + v * n(d), s * N(s * d), n(d), -s * N(s * d)]
def main(c):
    q = c.quick
    rep = Replay(build("rootdrv", "asan"))
    inv = ["Related", "Convex", "Sum", "Bounded", "Emitted"]
    r0, r1 = c.parallel([lambda: c.mc("Quotes", {"Fs": "-3..3", "Ks": "-3..3", "Vs": "{0, 1, 3}", "MaxV": "4", "Len0": "3", "R": "0"}, inv, name="neighbours", workers=4),
                         lambda: c.mc("Quotes", {"Fs": "-9..9", "Ks": "-9..9", "Vs": "0..12", "MaxV": "16", "Len0": "14", "R": "1"}, inv, name="quotes", simulate=250 if q else 2500, depth=16, seed=c.seed, workers=3)], 2)
    em = r0.emitted[c.seed % 7::7] if q else r0.emitted
    cases = []
    for i, e in enumerate(em[:1500 if q else 20000] + r1.emitted):
        for model in ("black", "bachelier"):
            u = (1.0, 100.0, 0.03, 4000.0)[(i + len(e["h"])) % 4]
            step = (0.1, 0.25, 0.001, 0.6, 0.01)[i // 4 % 5]
            vs = (1.0, 0.5, 1.6, 0.05)[i % 4]
            hs = []
            for h in e["h"]:
                if model == "black": h = dict(h, fv=u * math.exp(step * h["f"]), kv=u * math.exp(step * h["k"]), vv=step * vs * math.sqrt(h["v"]))
                else: h = dict(h, fv=u * h["f"], kv=u * h["k"], vv=u * vs * math.sqrt(h["v"]))
                hs.append(h)
            cases.append({"op": "quotes", "model": model, "h": hs, "u": u, "step": step, "mat": (1.0, 0.25, 7.5)[i % 3], "lam": (0.05, 1.0, 4.0)[i % 3]})
    def diff(k, o):
        bl = k["model"] == "black"
        hs = k["h"]
        key = "%s %s" % (k["model"], [(round(h["fv"], 4), round(h["kv"], 4), round(h["vv"], 4), "PCS"[h["b"]]) for h in hs][:3])
        if "exc" in o: return key, o["exc"]
        last = None
        for i, (h, x) in enumerate(zip(hs, o["q"])):
            f, kk, v, b, p = h["fv"], h["kv"], h["vv"], h["b"], x["p"]
            sc = max(abs(f), abs(kk), v, k["u"])
            tol = 1e-12 * sc
            at = "quote %d (%g, %g, %g, %s): " % (i + 1, f, kk, v, "PCS"[b])
            w = payout(f, kk, b)
            if not p >= w - tol: return key, at + "price %r below the payout %r" % (p, w)
            if abs(x["pf"] - p) > tol or abs(x["fwd"] - f) > tol or abs(x["vol"] - v) > tol: return key, at + "the distribution and the formula differ"
            if v == 0:
                if abs(p - w) > tol: return key, at + "price %r without volatility, payout %r" % (p, w)
            else:
                e = ref(bl, f, kk, v, b)
                if abs(p - e[0]) > tol: return key, at + "price %r, expected %r" % (p, e[0])
                for nm, y, z, s in (("delta", x["g"][0], e[1], 1.0), ("vega", x["g"][1], e[2], sc / k["u"] * max(1, k["u"] if bl else 1)), ("volvega", x["g"][2], v * e[2], sc), ("vol vega", x["g"][3], v * e[2], sc),
                                    ("value", x["a"][0], e[0], sc), ("adjoint to forward", x["a"][1], e[1], 1.0), ("adjoint to vol", x["a"][2], e[2], sc), ("adjoint to strike", x["a"][3], e[3], 1.0)):
                    if abs(y - z) > 1e-10 * s: return key, at + "%s %r, expected %r" % (nm, y, z)
                if "bs" in x and abs(x["bs"] - e[0]) > 10 * tol: return key, at + "over time: %r, expected %r" % (x["bs"], e[0])
                if "m0" in x:
                    if abs(x["m0"] - e[0]) > 10 * tol: return key, at + "no jumps: %r, expected %r" % (x["m0"], e[0])
                    if abs(x["m1"] - e[0]) > 1e-9 * sc: return key, at + "jumps of nothing at intensity %g: %r, expected %r" % (k["lam"], x["m1"], e[0])
                    mv, lt, m = -0.15 + 0.005, k["lam"] * k["mat"], 0.0
                    for j in range(120):
                        m += math.exp(-lt + j * math.log(lt) - math.lgamma(j + 1)) * ref(True, f * math.exp(j * mv - k["lam"] * math.expm1(mv) * k["mat"]), kk, math.sqrt(v * v + j * 0.01), 1)[0]
                    if abs(x["m2"] - m) > 1e-9 * sc: return key, at + "jumps at intensity %g over %g: %r, expected %r" % (k["lam"], k["mat"], x["m2"], m)
            # implied volatilities reprice
            clear = v > 0 and p - w > 1e-6 * max(1.0, p)
            for j in range(3):
                iv, back = x["iv"][2 * j:2 * j + 2]
                if v > 0 and p - w < 1e-11 * sc: continue        # rounding may have it below the payout
                if v > 0 and iv == -2: return key, at + "no implied volatility (guess %d)" % j
                if v > 0 and abs(back - p) > 2e-9 * max(1.0, p): return key, at + "implied volatility %r reprices to %r, not %r (guess %d)" % (iv, back, p, j)
                if clear and abs(iv - v) * e[2] > 1e-8 * max(1.0, p): return key, at + "implied volatility %r (guess %d)" % (iv, j)
            if clear and "bsiv" in x and abs(x["bsiv"] * math.sqrt(k["mat"]) - v) * e[2] > 1e-8 * max(1.0, p): return key, at + "implied volatility over time %r" % x["bsiv"]
            if clear and "steps" in x and abs(x["steps"] - v) * e[2] > 1e-8 * max(1.0, p) : return key, at + "implied volatility by steps %r" % x["steps"]
            if not x["rej"]: return key, at + "a price below the payout has an implied volatility"
            if "rej2" in x and not x["rej2"]: return key, at + "a price above every volatility has one"
            if last is not None:
                g, y = last
                d, mv = p - y["p"], abs(h["kv"] - g["kv"]) + abs(h["fv"] - g["fv"])
                r, t2 = h["rel"], 4 * tol
                ok = {"up": -t2 <= d and (h["v"] != g["v"] or d <= mv + t2), "down": d <= t2 and -d <= mv + t2, "either": abs(d) <= mv + t2, "same": abs(d) <= t2,
                      "shift": abs(p - y["p"] * (h["fv"] / g["fv"] if bl else 1.0)) <= t2, "parity": abs((y["p"] - p) * (1 if g["b"] else -1) - (f - kk)) <= t2, "both": d >= -t2, "part": d <= t2, "worth": d <= t2}[r]
                if not ok: return key, at + "price %r after %r is not %s" % (p, y["p"], r)
            last = h, x
    c.compare(rep, cases, "quotes", diff)
    zs = [x / 64.0 for x in range(-64 * 12, 64 * 12 + 1)]
    us = [N(x / 32.0) for x in range(-32 * 7, 32 * 7 + 1)] + [2.0 ** -j for j in range(1, 45)] + [1 - 2.0 ** -j for j in range(1, 45)] + [j / 997.0 for j in range(1, 997)]
    def ndiff(k, o):
        key = "normal"
        if "exc" in o: return key, o["exc"]
        for j, z in enumerate(k["z"]):
            if abs(o["n"][j] - N(z)) > 1e-15 + 1e-13 * N(z): return key, "N(%r) = %r, expected %r" % (z, o["n"][j], N(z))
            if abs(o["d"][j] - n(z)) > 1e-12: return key, "density at %r is %r, expected %r" % (z, o["d"][j], n(z))
            if abs(o["ns"][j] - N(z)) > 2e-4: return key, "fast N(%r) = %r, expected %r" % (z, o["ns"][j], N(z))
        for j, u in enumerate(k["u"]):
            if abs(N(o["i"][j]) - u) > 1e-12 + 1e-9 * min(u, 1 - u): return key, "inverse at %r is %r, where N is %r" % (u, o["i"][j], N(o["i"][j]))
    c.compare(rep, [{"op": "normal", "z": zs, "u": us}], "normal", ndiff)
