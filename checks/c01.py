from vlib import *
LEVEL = "model_checking"
TECHNIQUE = "TLC-enumerated calendar machine, replayed day by day into the code"
NOTE = ("Exhaustive over all 65,535 representable days: TLC steps the calendar one day at a time, proves the closed forms of the "
        "specification against the stepping and every visited day is compared with the implementation; constructions outside "
        "the range are enumerated for years 1901-2400. Trusts TLC, the JSON bridge and the compiler.")

CFG = """SPECIFICATION Spec
INVARIANT ClosedForm
INVARIANT RoundTrip
INVARIANT WeekdayForm
INVARIANT Emitted
"""

def main(c):
    exe = build("timedrv")
    r = c.tlc("Calendar", CFG, heap="2g")
    cases = r.emitted
    if len(cases) != 65535:
        raise MachineError("expected one row per representable day, got %d" % len(cases))
    c.cov["exhaustive"] = True

    def diff(k, o):
        n, y, m, d = k["n"], k["y"], k["m"], k["d"]
        iso = "%04d-%02d-%02d" % (y, m, d)
        exp = {"valid": True, "y": y, "m": m, "d": d, "w": k["w"], "we": k["w"] in (0, 6), "n": n, "nv": n, "iso": iso,
               "ymd": n, "isIso": True, "fromIso": n, "fromUs": n, "fromUs2": n}
        if n <= 91089:     # up to the documented maximum date the whole month is representable
            exp.update(eom=k["eom"], dim=k["dim"])
        if not k["last"]:
            exp.update(up=n + 1, down=n, add1=n + 1, sub1=n, rel=True, diff=1, diff0=n - 25569, ndiff0=25569 - n, addAll=n, subAll=25569)
        bad = {q: (v, o.get(q)) for q, v in exp.items() if o.get(q) != v}
        return (iso, "expected/observed %s %s" % (bad, o.get("exc", ""))) if bad else None
    c.compare(Replay(exe), cases, "days", diff)

    r2 = c.tlc("CalendarRange", "SPECIFICATION Spec\nINVARIANT Emitted\n", heap="2g")
    def diff2(k, o):
        return None if o.get("n") == k["x"] else ("%s" % k, "expected serial %s (0 = invalid), observed %s" % (k["x"], o))
    c.compare(Replay(exe), r2.emitted, "range", diff2)
