from vlib import *
import datetime
TECHNIQUE = "TLA+ grammar of index names as token sequences with a reading function, on which TLC checks that names and readings are inverse; every name and every damaged name is replayed into the index parsers"
NOTE = ("IndexNames.tla: all names of a set of equity and exchange-rate indices, every single edit and random further edits (tokens dropped, put in, replaced, swapped). "
        "Replay: names in the language give the index with that name, delivery and copy; all others are rejected. Texts of delays, empty equity names names with brackets inside and dates with impossible days are outside.")
TEXT = {"T1": "IBM", "T2": "a.b-1", "T3": "S&P 500", "C1": "USD", "C2": "EUR", "D1": "2024-06-03", "D2": "2025-12-31", "L1": "5BD", "L2": "3M", "L3": "IMM", "J1": " ", "J2": "June", "J3": "x"}
def main(c):
    q = c.quick
    rep = Replay(build("fixdrv", "asan"))
    k = {"Texts": '{"T1", "T2", "T3"}', "Ccys": '{"C1", "C2"}', "Dates": '{"D1", "D2"}', "Delays": '{"L1", "L2", "L3"}', "Junk": '{"J1", "J2", "J3"}'}
    inv = ["RoundTrip", "Canonical", "Emitted"]
    small = dict(k, Texts='{"T1"}', Dates='{"D1"}', Delays='{"L2"}')
    r0, r1, r2 = c.parallel([lambda: c.mc("IndexNames", dict(k, MaxEdits="1", R="0"), inv, name="edited", workers=2),
                             lambda: c.mc("IndexNames", dict(k, MaxEdits="4", R="1"), inv, name="damaged", simulate=1500 if q else 20000, depth=5, seed=c.seed, workers=2),
                             lambda: c.mc("IndexNames", dict(small, MaxEdits="1" if q else "2", R="0"), inv, name="twice", workers=4)], 3)
    cases, seen = [], set()
    for e in r0.emitted + r1.emitted + r2.emitted:
        key = tuple(e["name"])
        if key in seen: continue
        seen.add(key)
        for low in ((False, True) if e["read"]["k"] in ("eq", "fx") else (False,)):
            t = "".join(TEXT.get(x, x) for x in e["name"])
            cases.append({"op": "index", "name": t.lower() if low else t, "del": e["read"]["k"] == "eq", "e": e, "text": t})
    def diff(k, o):
        rd, key = k["e"]["read"], k["name"]
        if rd["k"] == "free": return None
        got = "exc" not in o and o["got"]
        if rd["k"] == "none": return (key, "read as %s" % o["name"]) if got else None
        if not got: return key, o.get("exc", "no index")
        if o["kind"] != rd["k"]: return key, "kind %s, expected %s" % (o["kind"], rd["k"])
        for nm in ("name", "clone"):
            if o[nm].upper() != k["text"].upper(): return key, "%s is %s" % (nm, o[nm])
        if rd["k"] == "eq":
            for j, d in enumerate(o["del"]):
                if not isinstance(d, int): return key, "delivery of the copy differs"
                t = datetime.date(2024, 1, 25) + datetime.timedelta(3 * j)
                if rd["m"] == "": w = -1
                elif rd["m"] == "@": w = (datetime.date.fromisoformat(TEXT[rd["x"]]) - t).days
                elif rd["x"] == "L2":
                    m, y = (t.month + 3, t.year) if t.month < 10 else (t.month - 9, t.year + 1)
                    last = (datetime.date(y + m // 12, m % 12 + 1, 1) - datetime.timedelta(1)).day
                    w = (datetime.date(y, m, min(t.day, last)) - t).days
                elif rd["x"] == "L1":
                    u, n = t, 0
                    while n < 5:
                        u += datetime.timedelta(1)
                        n += u.weekday() < 5
                    w = (u - t).days
                else: continue
                if d != w: return key, "delivery %d days after %s, expected %d" % (d, t, w)
    c.compare(rep, cases, "names", diff)
