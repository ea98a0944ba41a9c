from vlib import *
import random, math
TECHNIQUE = "TLA+ model of the split of a simulation into tasks (TLC: any schedule counts each path once with its own random vector); its configurations run in the code, free and under controlled schedules, against a path-by-path reference"
NOTE = ("MonteCarlo.tla gives the configurations (paths relative to the batch size, threads). Each runs through MCSimulation and ValueByMonteCarlo for two models, two generators, with and without bridge, interpreted and compiled, value and "
        "sensitivities, on pools of 1 to 8 threads, free-running and under bounded and random schedules, and is compared with the sum of paths evaluated one by one with fresh objects. Failures (unknown generator, failing allocations in workers) must surface.")

EV = {
 "call": [["STRIKE", "100.0"], [200, "opt PAYS MAX(spot() - STRIKE, 0)"]],
 "asian": [[30, "s = spot()"], [60, "s = s + spot()"], [91, "s = s + spot() opt PAYS MAX(s / 3 - 95, 0)"]],
 "barrier": [["K", "98.0"], ["B", "125.0"], [20, "alive = 1 IF spot() > B THEN alive = 0 END"], [80, "IF spot() > B THEN alive = 0 END"],
             [140, "IF spot() > B THEN alive = 0 END"], [200, "IF alive > 0.5 AND spot() > K THEN opt PAYS spot() - K ELSE opt PAYS 1 END"]],
 "ladder": [[10, "x = 1 y = 0"], [40, "IF spot() > 100 THEN x = x + 1 IF spot() > 105 THEN y = y + LOG(spot()) END ELSE y = y - 1 END"],
            [70, "IF spot() > 100 OR y > 2 THEN x = x * 2 END"], [100, "opt PAYS x * SQRT(spot()) + y"]],
 "fixed": [["K", "110.0"], [50, "IF spot() > 101 THEN opt = 2 * spot() ELSE opt = K END"]],
 "macro": [["K", "110.0"], ["L", "3.0"], [50, "y = spot() * L"], [60, "opt = K"]],
 "now": [[0, "z = spot()"], [120, "opt PAYS MAX(z - spot(), 0) * 2"]],
}
MODELS = {"bs": ["bs", 100.0, 0.25, 0.03, 0.01], "dup": ["dup", 100.0, 0.2, 0.02, 0.0, 0.01]}

def main(c):
    exe = build("simdrv", "plain")
    spec = c.mc("MonteCarlo", {"MaxPaths": "7" if c.quick else "9", "MaxThreads": "3", "Batch": "2"}, ["Complete", "AtMostOnce", "Emitted"], name="split", workers=8)
    rnd = random.Random(c.seed)
    def real(n): return {0: 0, 1: rnd.choice([1, 2, 700, 1023]), 2: 1024, 3: rnd.choice([1025, 1300, 2047]), 4: 2048, 5: rnd.choice([2049, 2500, 3071]), 6: 3072, 7: rnd.choice([3073, 4000, 4095]), 8: 4096, 9: rnd.choice([4097, 5000, 5119])}[n]
    sizes = [(real(e["n"]), e["nt"]) for e in spec.emitted] + [(real(n), t) for n in (1, 3, 5, 7) for t in (4, 5, 8)]
    rnd.shuffle(sizes)
    combos = []
    for aad, compiled, api in [(0, 0, 1), (0, 0, 0), (0, 1, 0), (1, 0, 1), (1, 0, 0), (1, 1, 0)]:
        for rsg in ("mrg32", "irn"):
            for bb in (0, 1):
                for m in MODELS: combos.append((aad, compiled, api, rsg, bb, m))
    rnd.shuffle(combos)
    base = []
    k = 0
    reps = 8 if c.quick else 40
    for i, (n, t) in enumerate(sizes * reps):
        aad, compiled, api, rsg, bb, m = combos[i % len(combos)]
        ev = list(EV)[(i + i // len(combos)) % len(EV)]
        base.append({"aad": bool(aad), "compiled": bool(compiled), "api": bool(api and n), "rsg": rsg, "bb": bool(bb), "model": MODELS[m], "events": EV[ev], "eps": [0.01, 1.0, 0.0][i % 3] if aad else 0.01, "n": n, "threads": t, "ev": ev, "m": m})
    rep = Replay(exe, width=8, per_case_timeout=120)
    # reference path by path
    def rk(b): return json.dumps([b["aad"], b["compiled"] and b["aad"], b["rsg"], b["bb"], b["model"], b["ev"], b["eps"] if b["aad"] else 0])
    need = {}
    for b in base: need[rk(b)] = max(need.get(rk(b), (0, None))[0], b["n"]), b
    refs = {}
    import concurrent.futures as cf
    items = [dict(b, op="ref", n=max(n, 1), compiled=b["compiled"] and b["aad"]) for n, b in need.values()]
    with cf.ThreadPoolExecutor(8) as ex:
        for part in ex.map(lambda p: list(rep._run(p)), [items[i::16] for i in range(16)]):
            for k, o in part:
                if "pv" not in o: raise MachineError("reference failed: %s %s" % (k, o))
                refs[rk(k)] = o
    def expect(b):
        r = refs[rk(b)]
        n = b["n"]
        pv = math.fsum(r["pv"][:n])
        scale = math.fsum(abs(x) for x in r["pv"][:n]) + 1
        risks = None
        if b["aad"]: risks = {nm: (math.fsum(a[j] for a in r["adj"][:n]) / n if n else 0, (math.fsum(abs(a[j]) for a in r["adj"][:n]) / n if n else 0) + 1) for j, nm in enumerate(r["names"])}
        return pv, scale, risks
    def why(b, res):
        if not isinstance(res, list) or "not a number" in json.dumps(res): return "gave %s" % json.dumps(res)[:200]
        pv, scale, risks = expect(b)
        if not abs(res[0] - pv) <= 1e-9 * scale: return "value %r, the paths sum to %r" % (res[0], pv)
        if risks is not None:
            if b["n"] == 0: return None
            got = dict(map(tuple, res[1:]))
            if set(got) != set(risks): return "sensitivities %s, expected %s" % (sorted(got), sorted(risks))
            for nm, (v, s) in risks.items():
                if not abs(got[nm] - v) <= 1e-8 * s: return "sensitivity to %s is %r, the paths average %r" % (nm, got[nm], v)
    def name(b): return "%s %s %s%s%s%s n=%d threads=%d" % (b["ev"], b["m"], b["rsg"], " bridge" if b["bb"] else "", " compiled" if b["compiled"] else "", " sensitivities" if b["aad"] else "", b["n"], b["threads"])
    def diff(k, o):
        if "exc" in o: return name(k), o["exc"]
        if len(o["res"]) != k.get("repeat", len(o["res"])): return name(k), "gave %s" % json.dumps(o["res"])[:300]
        for r in o["res"]:
            w = why(k, r)
            if w: return name(k), w
    c.compare(rep, [dict(b, op="free", repeat=3) for b in base], "free", diff)
    # faults
    bad = [dict(b, op="free", repeat=2, rsg="nosuch", n=max(b["n"], 1)) for b in base if not b["compiled"]][:40] + [dict(b, op="free", repeat=2, rsg="nosuch", n=max(b["n"], 1)) for b in base if b["aad"] and b["compiled"]][:10]
    def dbad(k, o):
        if "exc" in o: return None
        for r in o["res"]:
            if not (isinstance(r, dict) and "exc" in r): return name(k) + " unknown generator", "no error: %s" % json.dumps(r)[:200]
    c.compare(rep, bad, "unknown generator", dbad)
    alloc = []
    for i, b in enumerate([b for b in base if b["threads"] > 1 and b["n"] > 1024][:60 if c.quick else 400]):
        alloc.append(dict(b, op="free", repeat=2, fail=[1, 2, 3, 5, 8, 20, 60][i % 7]))
    def dfail(k, o):
        if "exc" in o: return None
        for r in o["res"]:
            if isinstance(r, dict) and "exc" in r: continue
            w = why(k, r)
            if w: return name(k) + " with allocation %d of the workers failing" % k["fail"], w
    c.compare(rep, alloc, "failing allocations", dfail)
    # controlled schedules
    sel = [b for b in base if 1 < b["threads"] < 5 and 1024 < b["n"] <= 3100]
    rnd.shuffle(sel)
    sel = sel[:90] if c.quick else sel[:400]
    cases = [dict(b, op="sched", limit=6 if c.quick else 40, random=20 if c.quick else 150, seed=c.seed * 13 + i) for i, b in enumerate(sel)]
    runs = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for part in ex.map(lambda p: list(rep._run(p)), [cases[i::24] for i in range(24)]):
            for k, o in part:
                if "res" not in o: c.violation("schedules: " + name(k), {"why": o}); continue
                runs += o["runs"]
                d = diff(k, o)
                if d: c.violation("schedules: " + d[0], {"why": d[1], "case": k})
    c.cov["schedules"] = runs
    c.cov["traces_validated_against_impl"] += runs
    log("%d configurations under %d schedules" % (len(cases), runs))
    # data races in free-running threads
    ts = build("simdrv", "tsan")
    sel = [dict(b, op="free", repeat=1, n=min(b["n"], 2600)) for b in base if b["threads"] > 1 and b["n"] > 1024]
    rnd.shuffle(sel)
    c.compare(Replay(ts, width=3, per_case_timeout=200), sel[:60] if c.quick else sel[:600], "data races", diff)
