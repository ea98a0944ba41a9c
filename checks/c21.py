from vlib import *
import re
TECHNIQUE = "TLA+ model of the repository as a set of objects (TLC), its histories replayed into ObjectAccess_ and the public repository functions"
NOTE = ("Repository.tla: every history of adds under each policy, fetches, pattern searches and erasures up to 3 operations over a pool of objects with equal, prefixed, case-differing, empty and separator-containing names and prefixed types, "
        "and simulated histories of 30 operations; StoreHist.tla linearizes the histories of several threads run under bounded schedules, and the race detector watches free runs; after every operation the whole contents and both sizes are compared.")
POOL = [("Alpha", "n"), ("Alpha", "n"), ("Alpha", ""), ("AlphaB", "n"), ("Alpha", "nm"), ("Alpha", "N"), ("Alpha", ""), ("Beta", "n"), ("Alpha", "n~m"), ("Alpha", "n m"), ("AlphaB", ""), ("Beta", "n~n")]
def tla(pool): return "<<%s>>" % ", ".join('[type |-> "%s", name |-> "%s", key |-> "%s"]' % (t, n, n.lower()) for t, n in pool)
def rx(p):
    if p[0] == "all": return ""
    if p[0] == "none": return "^zzz"
    if p[0] == "type": return "^~%s~" % p[1]
    if p[0] == "name": return "^~[^~]*~%s~0x[^~]*$" % p[1]
    return ""

def main(c):
    exe = build("stordrv", "asan")
    rep = Replay(exe)
    P = '{"NONE", "NAME_NONEMPTY", "NAME", "TYPE"}'
    small = [POOL[i] for i in (0, 1, 2, 4, 8)]
    runs = c.parallel([
        lambda: c.mc("Repository", {"Objs": tla(small), "MaxOps": "3", "Policies": P}, ["Sound", "Emitted"], name="all histories of 3", workers=3),
        lambda: c.mc("Repository", {"Objs": tla(POOL), "MaxOps": "2", "Policies": P}, ["Sound", "Emitted"], name="all histories of 2", workers=1),
        lambda: c.mc("Repository", {"Objs": tla(POOL), "MaxOps": "30", "Policies": P}, ["Sound", "Emitted"], name="long histories", spec="RSpec", simulate=25 if c.quick else 900, depth=32, seed=c.seed, workers=4)], 3)
    def diff(k, o):
        key = " ".join("%s%s%s" % (h["op"], h["o"] or "", ":" + "/".join(str(x) for x in h["p"] if x) if h["p"] else "") for h in k["h"])
        if "exc" in o: return key, o["exc"]
        tags = {}
        for i, (h, s) in enumerate(zip(k["h"], o["s"])):
            w = "operation %d (%s): " % (i + 1, h["op"])
            if h["op"] == "A":
                tags[h["o"]] = s["tag"]
                if len(set(tags.values())) != len(tags): return key, w + "two objects share a tag"
            elif h["op"] == "F":
                if s["r"] != h["r"] or s["throws"] != (h["r"] == 0): return key, w + "fetch gives %s" % s
            elif s["r"] != h["r"] or s.get("r2", h["r"]) != h["r"]: return key, w + "result %s, expected %s" % (s, h["r"])
            if s["all"] != h["store"] or s["size"] != len(h["store"]) or s["size2"] != len(h["store"]): return key, w + "holds %s (size %s/%s), expected %s" % (s["all"], s["size"], s["size2"], h["store"])
    for r, pool, name in zip(runs, (small, POOL, POOL), ("all histories of 3", "all histories of 2", "long histories")):
        objs = [{"type": t, "name": n} for t, n in pool]
        cases = [{"op": "repo", "objs": objs, "h": [dict(h, rx=rx(h["p"]) if h["op"] in "SE" else "") for h in e["h"]]} for e in r.emitted]
        if c.quick and name == "long histories": cases = cases[c.seed % 4::4]
        c.compare(rep, cases, name, diff)
    # several threads
    import conc, random
    ops = [["A", 10 * o + p] for o in (1, 2, 3, 4) for p in (0, 1, 2, 3)] + [["F", 1], ["F", 2], ["X", 1], ["X", 2], ["E", 0], ["S", 0]]
    rnd = random.Random(c.seed)
    progs = [[[["A", 12], ["S", 0]], [["A", 22], ["S", 0]]], [[["A", 11], ["F", 2]], [["A", 21], ["F", 1]]], [[["A", 13], ["S", 0]], [["A", 33], ["S", 0]]], [[["A", 12], ["X", 1]], [["A", 23], ["F", 1], ["S", 0]]], [[["A", 20], ["E", 0]], [["A", 12], ["S", 0]], [["S", 0], ["F", 2]]]]
    for _ in range(14 if c.quick else 120): progs.append([[rnd.choice(ops) for _ in range(2)] + [["S", 0]] for _ in range(2 if rnd.random() < .7 else 3)])
    conc.explore(c, build("storconc", "plain"), "StoreHist", progs, bound=2, limit=600 if c.quick else 6000, rnd=60 if c.quick else 600)
    conc.races(c, build("storconc", "tsan"), progs, 40 if c.quick else 400, "data races")
