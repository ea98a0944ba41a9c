from vlib import *
TECHNIQUE = "TLC simulation of the holiday registry, histories replayed into the code"
NOTE = ("Random registry histories of the specification (registrations, rejected registrations, queries and counts in all spellings and orders) are "
        "replayed and every answer on a 3-week window is compared; the built-in calendars' recorded data is fed back to the specification.")

def main(c):
    exe = build("timedrv")
    lo = 45285    # 2023-12-25, a Monday
    n = 400 if c.quick else 4000
    cfg = "SPECIFICATION Spec\nCONSTANTS Lo = %d\n Hi = %d\n MaxLen = 14\nINVARIANTS Done Perm\n" % (lo, lo + 20)
    r = c.tlc("Holidays", cfg, simulate=n, depth=16, seed=c.seed, timeout=840)
    def diff(k, o):
        if "exc" in o: return (o["exc"], o["exc"])
        for i, (s, x) in enumerate(zip(k["steps"], o["r"])):
            key = json.dumps(s)[:200]
            if s["ok"] != x["ok"]: return (key, "step %d: expected ok=%s, observed %s" % (i, s["ok"], x["ok"]))
            if not s["ok"]: continue
            if s["op"] == "q":
                for q in ("bus", "hol", "ww", "nx", "pv"):
                    if s["r"][q] != x[q]: return (key, "step %d %s: expected %s observed %s" % (i, q, s["r"][q], x[q]))
            if s["op"] == "n" and s["r"] != x["n"]: return (key, "step %d count: expected %s observed %s" % (i, s["r"], x["n"]))
        return None
    c.compare(Replay(exe), r.emitted, "registry", diff)

    # the built-in calendars: data as held by the implementation, rules from the specification
    rep = Replay(exe)
    data = [dict(c=q["c"], h=o["h"], w=o["w"]) for q, o in rep.run([{"op": "holdata", "c": "CN.SSE"}, {"op": "holdata", "c": "CN.IB"}]) if "h" in o]
    if len(data) != 2: raise MachineError("built-in calendars not available")
    r2 = c.mc("HolidayData", {"Data": 'JsonDeserialize("data.json")', "Sets": '{<<"CN.SSE">>, <<"CN.IB">>, <<"CN.SSE", "CN.IB">>}',
                              "Lo": str(data[0]["h"][0] - 30), "Hi": str(data[0]["h"][-1] + 30)}, ["Emitted"],
              files={"data.json": json.dumps(data)}, defs="")
    cases = []
    for i, row in enumerate(r2.emitted):
        nm = row["q"] if i % 2 else [x.lower() for x in reversed(row["q"])]
        cases.append(dict(row, c=" ".join(nm)))
    def diff2(k, o):
        bad = [q for q in ("nx", "pv", "ct") if k[q] != o.get(q)]
        return ("%s@%s" % (k["c"], k["lo"]), "%s differ %s" % (bad, o.get("exc", ""))) if bad else None
    c.compare(rep, cases, "builtin", diff2)
