from vlib import *
import math, bisect, collections
TECHNIQUE = "TLA+ model of bracketing root searches over polygons with exactly known zeros (TLC), whose functions are replayed into the searches; the recorded searches are validated against the model by TLC"
NOTE = ("Roots.tla: polygons with integer values (increasing, decreasing, or any with a sign change), their exact zeros and flats, and the searches that shrink a bracket around a sign change, exhaustive on small knot sets and sampled on larger ones. "
        "Each function is bent (straight, cubed, rooted, exponential, discontinuous, ninth power), scaled and searched by hunting from guesses in and far outside the range or from given brackets. The recorded evaluations go back to TLC (RootTrace.tla) as orders and signs: each next point lies in the bracket, the bracket keeps its sign change, the width reported is that of an evaluated pair. The search ends within 150 evaluations, within its width of an exact zero. Function values whose products underflow are outside.")
def seqs(ss): return "{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, s)) for s in ss)
def tla(i, n0, ev): return "[id |-> %d, n0 |-> %d, ev |-> <<%s>>]" % (i, n0, ", ".join("<<%d, %d, {%s}>>" % (x, y, ", ".join("<<%d, %d>>" % p for p in ws)) for x, y, ws in ev))
def sgn(x): return (x > 0) - (x < 0)
def main(c):
    q = c.quick
    rep = Replay(build("rootdrv", "asan"))
    inv = ["Holds", "One", "Emitted"]
    base = {"KnotSets": seqs([(0, 1), (0, 2, 3)]), "Vals": "-2..2", "Fine": "2", "Search": "TRUE", "R": "0"}
    big = {"KnotSets": seqs([(0, 1), (-3, 5), (0, 1, 4), (-2, 0, 1, 7), (-9, -8, 0, 3, 10), (0, 1, 2, 3, 4, 5), (100, 101, 150)]), "Vals": "-40..40", "Fine": "1", "Search": "FALSE", "R": "20" if q else "250"}
    jobs = [(s, b) for b in (base, big) for s in ("up", "down", "any")]
    runs = c.parallel([lambda s=s, b=b: c.mc("Roots", dict(b, Shape='"%s"' % s), inv, name="%s %s" % (s, "functions" if b is big else "searches"), seed=c.seed, workers=2) for s, b in jobs], 4)
    cases = []
    for (s, b), r in zip(jobs, runs):
        for i, e in enumerate(r.emitted):
            for j in range(3):
                n = len(cases)
                sc, sh = (1, 0.01, 250.0)[(n // 5) % 3], (0, 3.7, -0.11)[(n // 7) % 3]
                k = dict(e, op="root", shape=s, kn=[sc * (x + sh) for x in e["k"]], fv=e["f"], bend=("line", "cube", "root", "jump", "exp", "ninth")[n % 6], unit=(1, 1e-3, 1e4)[(n // 3) % 3], tol=(2.22e-16, 1e-9, 1e-4)[n % 3], max=150)
                if k["bend"] == "exp": k["fv"] = [x / 8.0 for x in k["f"]]
                k["xtol"], k["ftol"] = ((1e-9 * sc, 0.0), (1e-6 * sc, 1e-9 * k["unit"]), (0.0, 1e-8 * k["unit"]))[(n // 2) % 3]
                if k["bend"] == "ninth": k["xtol"], k["ftol"] = 1e-6 * sc, 0.0
                if k["bend"] in ("jump", "root") and k["xtol"] == 0: k["xtol"] = 1e-7 * sc
                if k["bend"] == "cube" and k["ftol"] == 0: k["ftol"] = 1e-14 * k["unit"]
                k["sc"], k["sh"], k["n"] = sc, sh, n
                if s == "any" or j == 2:
                    lo, hi = k["kn"][0], k["kn"][-1]
                    if e["f"][0] * e["f"][-1] > 0: continue
                    k["ends"] = [lo, hi] if n % 2 else [hi, lo]
                else:
                    k["guess"] = sc * (sh + e["k"][0] + (e["k"][-1] - e["k"][0]) * ((n * 7) % 23 - 5) / 12.0)
                    k["step"] = (0, 0.3 * sc, 4 * sc)[n % 3]
                cases.append(k)
    most = collections.Counter()
    seen = {}
    def diff(k, o):
        key = "%s %s over %s values %s" % ("from %g" % k["guess"] if "guess" in k else "bracket", k["bend"], k["k"], k["f"])
        if "exc" in o: return key, o["exc"]
        if not o["ok"]: return key, "no convergence in %d evaluations: %s" % (len(o["x"]), o["x"][-3:])
        x, y, w = o["x"][-1], o["y"][-1], o["w"][-1]
        if not (abs(y) < k["ftol"] or w < k["xtol"]): return key, "stopped at %r, value %r, width %r" % (x, y, w)
        zs = [(k["sc"] * (z["at"] + z["num"] / z["den"] + k["sh"]),) * 2 for z in k["z"]] + [(k["sc"] * (a + k["sh"]), k["sc"] * (b + k["sh"])) for a, b in k["flat"]]
        d = min(max(a - x, x - b, 0.0) for a, b in zs)
        big = 1e-13 * max(map(abs, k["kn"]))
        if abs(y) >= k["ftol"] and d > w + big: return key, "stopped at %r, %r away from the zero with a bracket of %r" % (x, d, w)
        most[k["bend"]] = max(most[k["bend"]], len(o["x"]))
        seen[k["n"]] = (k, o, key)
    c.compare(rep, cases, "searches", diff)
    print("# most evaluations: %s" % dict(most))
    # recorded searches as orders and signs
    got = [seen[n] for n in sorted(seen)]
    parts = []
    for lo in range(0, len(got), 1500):
        part = []
        for i, (k, o, key) in enumerate(got[lo:lo + 1500]):
            rk = {v: j for j, v in enumerate(sorted(set(o["x"])))}
            n0 = 0 if "guess" in k else 2
            ev = []
            for j, (x, y, w) in enumerate(zip(o["x"], o["y"], o["w"])):
                ws = [] if w > 1e28 or j < n0 - 1 else [(a + 1, b + 1) for a in range(j + 1) for b in range(a, j + 1) if abs(o["x"][a] - o["x"][b]) == w]
                ev.append((rk[x], sgn(y), ws))
            part.append(tla(lo + i + 1, n0, ev))
        parts.append(part)
    rs = c.parallel([lambda p=p, j=j: c.mc("RootTrace", {"Traces": "{%s}" % ",\n".join(p)}, ["Emitted"], name="recorded %d" % (j + 1), workers=2) for j, p in enumerate(parts)], 4)
    ok = {e["id"] for r in rs for e in r.emitted}
    for i, (k, o, key) in enumerate(got):
        if i + 1 not in ok: c.violation("recorded:" + key, {"suite": "recorded", "case": k, "seen": o, "why": "the recorded search does not follow the model"})
