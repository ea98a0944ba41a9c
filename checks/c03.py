from vlib import *
TECHNIQUE = "TLC clock machine (every second of a day), replayed into the code"
NOTE = ("Exhaustive over the 86,400 seconds of a day, each with a millisecond offset; shifts by sixteenths of a day, comparisons, rejected "
        "readings and texts are enumerated. Thorough repeats the day on further dates and millisecond patterns.")

def main(c):
    exe = build("timedrv")
    rounds = [(44927, 7)] if c.quick else [(44927, 7), (25569, 13), (91089, 997), (48976, 1), (60001, 333), (73049, 999)]
    for day, mul in rounds:
        r = c.tlc("Clock", "SPECIFICATION Spec\nCONSTANTS Day = %d\n MsMul = %d\nINVARIANTS InDay Elapsed Emitted\n" % (day, mul), name="Clock%d" % day)
        if len(r.emitted) != 86400: raise MachineError("clock rows: %d" % len(r.emitted))
        def diff(k, o):
            ts = "%02d:%02d:%02d" % (k["h"], k["m"], k["sec"])
            e = {"date": day, "h": k["h"], "m": k["m"], "t": ts, "isdt": True, "back": True, "ms": 1000 * k["s"], "fromms": True,
                 "ums": 1000 * k["s"] + k["off"], "uh": k["h"], "um": k["m"], "ut": ts, "udate": day, "secs": k["s"], "num": k["s"]}
            if k["off"]: e["ord"] = True
            if not k["last"]: e.update(next=True, one=True)
            bad = {q: (v, o.get(q)) for q, v in e.items() if o.get(q) != v}
            if not str(o.get("txt", "")).endswith(" " + ts): bad["txt"] = (ts, o.get("txt"))
            return (ts, "expected/observed %s %s" % (bad, o.get("exc", ""))) if bad else None
        c.compare(Replay(exe), r.emitted, "clock%d" % day, diff)
    r = c.tlc("ClockEdges", "SPECIFICATION Spec\nINVARIANT Emitted\n")
    def diff2(k, o):
        op = k["op"]
        if op == "shift": e = {"n": k["x"], "f": k["f"], "n0": k["n"], "f0": k["a"], "d": k["k"], "same": True, "g": True}
        elif op == "cmp":
            s = k["c"]
            e = {"lt": s < 0, "le": s <= 0, "gt": s > 0, "ge": s >= 0, "eq": s == 0, "ne": s != 0, "d": k["days"] * 86400 + k["secs"]}
        elif op == "ms":
            t = k["ms"] // 1000
            e = {"n": k["n"], "ms": k["ms"], "t": "%02d:%02d:%02d" % (t // 3600, t // 60 % 60, t % 60), "self": True}
        elif op == "txt": e = {"ok": k["ok"], "n": k["n"], "sec": k["sec"]} if k["ok"] else {"ok": False}
        else: e = {"ok": k["ok"]}
        bad = {q: (v, o.get(q)) for q, v in e.items() if o.get(q) != v}
        return ("%s" % sorted(k.items()), "expected/observed %s %s" % (bad, o.get("exc", ""))) if bad else None
    c.compare(Replay(exe), r.emitted, "edges", diff2)
