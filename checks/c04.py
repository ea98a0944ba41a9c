from vlib import *
TECHNIQUE = "TLC-enumerated date pairs with exact day-count rules, replayed into the code"
NOTE = ("TLC enumerates pairs of dates around year, leap-day and month ends (thorough: all pairs inside multi-year windows plus more years), checks the "
        "rules' own consistency and emits exact numerators/denominators that the code's result must equal to 1e-12.")

def main(c):
    exe = build("timedrv")
    md = "{<<1,1>>,<<1,2>>,<<1,30>>,<<1,31>>,<<2,1>>,<<2,27>>,<<2,28>>,<<2,29>>,<<3,1>>,<<3,30>>,<<3,31>>,<<4,30>>,<<6,15>>,<<8,31>>,<<12,30>>,<<12,31>>}"
    yrs = [1999, 2000, 2001, 2003, 2004, 2005, 2007, 2008, 2023, 2034, 2096, 2100, 2104]
    if not c.quick:
        yrs = sorted(set(yrs + list(range(1996, 2013)) + list(range(2094, 2106))))
        md = "{<<m, d>> : m \\in 1..12, d \\in {1, 2, 14, 28, 29, 30, 31}}"
    def diff(k, o):
        if "exc" in o: return ("%s-%s" % (k["n1"], k["n2"]), o["exc"])
        d, l = k["days"], k["l"]
        aa = l / 366.0 + (d - l) / 365.0
        e = {"ACT_365F": d / 365.0, "ACT/365F": d / 365.0, "ACT_360": d / 360.0, "ACT/360": d / 360.0, "ACT_ACT": aa, "ACT/ACT": aa,
             "BOND": k["t"] / 360.0, "30/360": k["t"] / 360.0}
        bad = {q: (v, o[q]) for q, v in e.items() if abs(v - o[q]) > 1e-12 * max(1, abs(v))}
        for x, v in zip(k["ctx"], o["L"]):
            if abs(d / x["div"] - v) > 1e-12 * max(1, abs(v)): bad["365L end=%s coupon=%s" % (x["e"], x["m"])] = (d / x["div"], v)
        if not o["noctx"]: bad["365L without context"] = "accepted"
        return ("%s-%s" % (k["n1"], k["n2"]), "expected/observed %s" % bad) if bad else None
    r = c.mc("DayCount", {"Years": "{%s}" % ",".join(map(str, yrs)), "Md": md, "Span": "4000" if c.quick else "6000"},
             ["Split", "ThirtyNear", "WholeYears", "Same", "Emitted"], heap="6g", workers=8)
    c.compare(Replay(exe), r.emitted, "basis", diff)
