from vlib import *
import conc, random
TECHNIQUE = "TLA+ model of dates with scoped overrides and of the environment stack (TLC), its histories replayed with real C++ scopes and exceptions; histories of several threads linearized by TLC"
NOTE = ("Globals.tla: every history of sets, scoped overrides, environment entries, scope exits and exceptions up to 5 operations, simulated ones of 25 with depth 8; both dates and all environment lookups are compared after every operation. "
        "StoreHist.tla linearizes histories of reads and sets by several threads, run under bounded schedules; the race detector watches free runs.")
def main(c):
    exe = build("stordrv", "asan")
    rep = Replay(exe)
    q = c.quick
    runs = c.parallel([
        lambda: c.mc("Globals", {"NDates": "1", "MaxOps": "5" if q else "6", "MaxDepth": "3", "Bases": "{<<>>}"}, ["Restored", "Balanced", "Emitted"], name="all histories", workers=4),
        lambda: c.mc("Globals", {"NDates": "3", "MaxOps": "3", "MaxDepth": "3", "Bases": "{<<>>, <<<<0, 90>>>>, <<<<1, 91>>, <<0, 92>>, <<1, 93>>>>}"}, ["Restored", "Balanced", "Emitted"], name="all short histories", workers=2),
        lambda: c.mc("Globals", {"NDates": "3", "MaxOps": "25", "MaxDepth": "8", "Bases": "{<<>>, <<<<1, 91>>, <<0, 92>>, <<1, 93>>>>}"}, ["Restored", "Balanced", "Emitted"], name="long histories", simulate=150 if q else 4000, depth=27, seed=c.seed, workers=3)], 3)
    def diff(k, o):
        key = " ".join("%s%s:%s" % (h["op"], h["k"], h["v"]) for h in k["h"])
        if "exc" in o: return key, o["exc"]
        if not o["back"]: return key, "the environment pointer is not restored"
        # observations follow the operations up to the end inside open scopes
        if len(o["s"]) != len(k["h"]): return key, "%d observations for %d operations" % (len(o["s"]), len(k["h"]))
        for i, (h, s) in enumerate(zip(k["h"], o["s"])):
            e = {"acc": h["acc"], "ev": h["ev"], "a": h["a"], "b": h["b"], "fa": (h["a"] + [0])[0], "fb": (h["b"] + [0])[0], "n": len(h["a"]) + len(h["b"])}
            if s != e: return key, "after operation %d (%s) %s, expected %s" % (i + 1, h["op"], s, e)
    for r, name in zip(runs, ("all", "short", "long")):
        c.compare(rep, [dict(e, op="globals", null=m % 2 == 0) for m, e in enumerate(r.emitted)], name, diff)
    rnd = random.Random(c.seed)
    ops = lambda t: rnd.choice([["D", 100 * rnd.randint(0, 1) + 10 * t + rnd.randint(0, 1)], ["G", rnd.randint(0, 1)]])
    progs = [[[["D", 112], ["G", 1]], [["G", 1], ["D", 121], ["G", 1]]], [[["G", 1], ["G", 1]], [["D", 112], ["D", 113]]], [[["D", 12], ["G", 1]], [["D", 122], ["G", 0]]]]
    progs += [[[ops(t + 1) for _ in range(3)] for t in range(rnd.choice([2, 2, 3]))] for _ in range(10 if q else 80)]
    conc.explore(c, build("storconc", "plain"), "StoreHist", progs, bound=2, limit=500 if q else 5000, rnd=60 if q else 600)
    conc.races(c, build("storconc", "tsan"), progs, 40 if q else 400, "data races")
