from vlib import *
TECHNIQUE = "TLA+ model of value stacks as sequences (TLC, exhaustive on short and sampled on long histories), replayed into the growing and the fixed stack under the address sanitizer"
NOTE = ("Stacks.tla: pushes, pops, takes, writes below the top, resets, clears, copies and moves between two stacks. Replay: sizes, values from the top down, iteration and rejected overflow after every step, for numbers and strings, initial capacities from none. "
        "Popping more than there is and self-moves are outside.")
def main(c):
    q = c.quick
    rep = Replay(build("notedrv", "asan"))
    inv = ["Sizes", "Emitted"]
    n = "3" if q else "4"
    rs = c.parallel([lambda: c.mc("Stacks", {"Fixed": "FALSE", "Cap": "0", "MaxOps": n, "Starts": "{0, 1, 2}", "R": "0"}, inv, name="growing", workers=3),
                     lambda: c.mc("Stacks", {"Fixed": "FALSE", "Cap": "0", "MaxOps": "25", "Starts": "{0, 1, 3, 16, 64}", "R": "1"}, inv, name="growing at random", simulate=400 if q else 6000, depth=27, seed=c.seed, workers=2),
                     lambda: c.mc("Stacks", {"Fixed": "TRUE", "Cap": "8", "MaxOps": n, "Starts": "{0}", "R": "0"}, inv, name="fixed", workers=2),
                     lambda: c.mc("Stacks", {"Fixed": "TRUE", "Cap": "8", "MaxOps": "25", "Starts": "{0}", "R": "1"}, inv, name="fixed at random", simulate=200 if q else 3000, depth=27, seed=c.seed, workers=2),
                     lambda: c.mc("Stacks", {"Fixed": "TRUE", "Cap": "128", "MaxOps": "25", "Starts": "{0}", "R": "1"}, inv, name="fixed, of strings", simulate=150 if q else 2000, depth=27, seed=c.seed, workers=2)], 5)
    cases = []
    for r, ks in zip(rs, (("int", "string"), ("int", "string"), ("static8",), ("static8",), ("static128",))):
        seen = set()
        for e in r.emitted:
            key = json.dumps(e["h"])
            if key in seen: continue
            seen.add(key)
            for k in ks: cases.append({"op": "stacks", "kind": k, "h": e["h"]})
    def diff(k, o):
        key = k["kind"] + " " + " ".join("%s%s" % (h["op"], h["x"] or "") for h in k["h"])[:250]
        if "exc" in o: return key, o["exc"]
        for i, (h, s) in enumerate(zip(k["h"], o["s"])):
            at = "step %d (%s): " % (i, h["op"])
            if s[0] != h["ok"]: return key, at + ("accepted" if s[0] else "rejected")
            if s[1] != h["ret"]: return key, at + "returned %r, expected %r" % (s[1], h["ret"])
            for nm, x, w in (("the stack", s[2], h["a"]), ("the other", s[3], h["b"])):
                if x != [len(w), 0 if w else 1] + w: return key, at + "%s is %r, expected %r" % (nm, x, w)
            if len(s) > 4 and s[4] != h["a"]: return key, at + "iteration gives %r, expected %r" % (s[4], h["a"])
    c.compare(rep, cases, "stacks", diff)
