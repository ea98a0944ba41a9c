from vlib import *
TECHNIQUE = "TLA+ model of the block storage (TLC), its histories replayed into BlockList_ with address, content, iteration and search checks"
NOTE = ("BlockList.tla: every history of emplacements, multi-slot reservations, marks, rewinds, clears and fills up to 5 operations for block sizes 1-3, and simulated histories of 40 operations for sizes 1-5; "
        "after every operation: contents at the original addresses, forward, backward and const iteration, size, distance to the mark, search of every address seen, and which storage is used again.")

def main(c):
    exe = build("aaddrv", "asan")
    rep = Replay(exe, per_case_timeout=8)
    W = '<<"E", "P", "1", "2", "3", "K", "R", "W", "G", "T", "C", "Z">>'
    L = '<<"E", "E", "E", "P", "P", "1", "2", "3", "4", "K", "R", "R", "W", "G", "T", "Z">>'
    L2 = '<<"E", "E", "P", "K", "R", "G", "T", "W", "C", "Z", "E">>'
    q = c.quick
    runs = c.parallel([
        lambda: c.mc("BlockList", {"Sizes": "{2}", "MaxOps": "5", "Weights": '<<"E", "2", "K", "R", "W", "G", "T", "C">>'}, ["Sound", "Emitted"], name="all histories, size 2", workers=4),
        lambda: c.mc("BlockList", {"Sizes": "{1, 3}", "MaxOps": "4" if q else "5", "Weights": '<<"E", "P", "1", "2", "3", "K", "R", "W", "G", "T", "C", "Z">>'}, ["Sound", "Emitted"], name="all histories, sizes 1, 3", workers=4),
        lambda: c.mc("BlockList", {"Sizes": "1..5", "MaxOps": "40", "Weights": L}, ["Sound", "Emitted"], name="long histories", simulate=60 if q else 1500, depth=42, seed=c.seed, workers=2),
        lambda: c.mc("BlockList", {"Sizes": "1..5", "MaxOps": "40", "Weights": L2}, ["Sound", "Emitted"], name="long histories without gaps", simulate=60 if q else 1500, depth=42, seed=c.seed + 7, workers=2)], 4)
    for r, name in zip(runs, ("all-2", "all-1-3", "long", "long-nogap")):
        def diff(k, o):
            key = "block %d: %s" % (k["b"], " ".join(h["op"] + (str(h["n"]) if h["op"] == "M" else "") for h in k["h"]))
            if "exc" in o: return key, o["exc"]
            addr = {}
            for i, (h, s) in enumerate(zip(k["h"], o["s"])):
                w = "after operation %d (%s): " % (i + 1, h["op"])
                v = [x[1] for x in h["live"]]
                if h["op"] == "C": addr = {}
                if "p" in s:
                    for j in range(h["n"]):
                        a = s["p"] + j
                        if addr.setdefault(h["slot"] + j, a) != a: return key, w + "slot %d moved to other storage" % (h["slot"] + j)
                    if len(set(addr.values())) != len(addr): return key, w + "two slots share storage"
                if s["at"] != v: return key, w + "entries hold %s, expected %s" % (s["at"], v)
                if h["nogap"]:
                    if s["size"] != len(v): return key, w + "size %s, expected %d" % (s["size"], len(v))
                    if s["fw"] != v or s["cfw"] != v: return key, w + "forward iteration %s / %s, expected %s" % (s["fw"], s["cfw"], v)
                    if s["bw"] != v[::-1]: return key, w + "backward iteration %s, expected %s" % (s["bw"], v[::-1])
                    if s.get("mark", h["mark"]) != h["mark"]: return key, w + "mark at %s, expected %s" % (s.get("mark"), h["mark"])
                for sl, f in zip(s["slots"], s["find"]):
                    if f != (1 if sl < h["end"] else -1): return key, w + "search of slot %d gives %d" % (sl, f)
        c.compare(rep, [dict(e, op="blocks") for e in r.emitted], name, diff)
