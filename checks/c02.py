from vlib import *
TECHNIQUE = "TLC-enumerated month-shift machine, replayed into the code"
NOTE = ("TLC enumerates dates x shifts x end-of-month flag, checks the closed form against the stated meaning (landing month, clipping, "
        "undo, composition) and each row is compared with the implementation. Quick: 7 days per month of 32 years; thorough: every day of every year.")

def main(c):
    exe = build("timedrv")
    years = "{1970, 1971, 1972, 1973, 1976, 1999, 2000, 2001, 2003, 2004, 2023, 2024, 2033, 2034, 2035, 2050, 2066, 2067, 2068, 2095, 2096, 2099, 2100, 2101, 2103, 2104, 2133, 2134, 2146, 2147, 2148, 2149}"
    ad = "FALSE"
    if not c.quick: years, ad = "{" + ",".join(map(str, range(1970, 2150))) + "}", "TRUE"
    shifts = [0, 1, 2, 3, 6, 9, 11, 12, 13, 14, 18, 23, 24, 25, 36, 59, 120, 121, 600, 1199, 1200, 1201]
    shifts = "{" + ",".join(str(x) for x in sorted(set(shifts + [-x for x in shifts]))) + "}"
    r = c.mc("MonthArith", {"Years": years, "Shifts": shifts, "AllDays": ad}, ["Lands", "Undo", "Compose", "Emitted"], heap="6g", workers=8)
    def diff(k, o):
        bad = []
        if "exc" in o: return ("%s" % k["n"], o["exc"])
        for q in ("a", "e"):
            for s, x, y in zip(k["k"], k[q], o[q]):
                if x >= 0 and x != y: bad.append((q, s, x, y))
        for s, x, y in zip(k["k"], k["a"], o["a0"]):
            if x >= 0 and x != y: bad.append(("a0", s, x, y))
        for q in ("eom", "dim"):
            if k[q] != o[q]: bad.append((q, k[q], o[q]))
        for q, x in k["nm"].items():
            if x >= 0 and x != o["nm"][q]: bad.append((q, x, o["nm"][q]))
        return ("%s" % k["n"], "(what, shift, expected, observed): %s" % bad[:6]) if bad else None
    c.compare(Replay(exe), r.emitted, "months", diff)
