from vlib import *
TECHNIQUE = "TLC-enumerated increments over a date walk, replayed into the code"
NOTE = ("About 160 increments (all units, aliases, holiday combinations, compounds) are applied forward and backward from every date of the walk; "
        "TLC checks that special-day steps are strict and skip nothing; texts outside the grammar must be rejected.")

def main(c):
    exe = build("timedrv")
    rounds = [(44500, 44500 + 800, 1)] if c.quick else [(44500, 44500 + 3000, 1), (73000, 73000 + 2200, 1), (27500, 29500, 1)]
    for lo, hi, st in rounds:
        sink = []
        r = c.mc("Increments", {"Lo": str(lo), "Hi": str(hi), "Stride": str(st), "Thorough": "FALSE"}, ["Strict", "Emitted"], name="Inc%d" % lo, heap="6g", workers=8)
        setup = [x for x in r.emitted if x["op"] == "setup"][0]
        sf = os.path.join(c.dir("s"), "setup%d.json" % lo)
        json.dump(setup, open(sf, "w"))
        texts = setup["texts"]
        ib = {t: i for i, t in enumerate(texts)}
        def diff(k, o):
            if "exc" in o: return ("%s" % k["n"], o["exc"])
            bad = [(t, "fwd", x, y) for t, x, y in zip(texts, k["f"], o["f"]) if x != y] + [(t, "back", x, y) for t, x, y in zip(texts, k["b"], o["b"]) if x != y]
            nb = o["nb"]
            if [nb[i] for i in range(len(nb)) if i % 4 < 2] != [nb[i] for i in range(len(nb)) if i % 4 >= 2]: bad.append(("NBusDays differs from nBD", nb))
            if not o["imm"]: bad.append("ToIMM differs from IMM text")
            return ("%s %s" % (k["n"], bad[0][0]), "(increment, direction, expected, observed) %s" % bad[:5]) if bad else None
        rep = Replay(exe, args=[sf])
        c.compare(rep, [x for x in r.emitted if x["op"] == "inc"], "increments%d" % lo, diff)
        c.compare(rep, [{"op": "badinc", "t": t} for t in setup["bad"]], "malformed%d" % lo,
                  lambda k, o: None if o.get("rejected") else ("'%s'" % k["t"], "accepted"))
