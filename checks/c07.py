from vlib import *
TECHNIQUE = "TLC schedule-building machine, finished schedules replayed into the code"
NOTE = ("TLC lays schedules pin by pin for a grid of starts, lengths, tenors and both directions, checks coverage and monotonicity, and the finished "
        "schedules (raw, unadjusted and rolled for three holiday sets) are compared with the implementation; non-advancing tenors must be rejected.")

def main(c):
    exe = build("timedrv")
    if c.quick: starts, spans = "{44592, 44620, 44700, 44926}", "{0, 1, 30, 59, 91, 365, 400}"
    else: starts, spans = "(44560..44660) \\cup {44926, 48945, 73080}", "{0, 1, 7, 28, 30, 31, 59, 91, 181, 364, 365, 366, 400, 731}"
    r = c.mc("Schedules", {"Starts": starts, "Spans": spans}, ["Covers", "Increasing", "Emitted", "EmitSetup"], heap="8g", workers=8)
    setup = [x for x in r.emitted if x["op"] == "setup"][0]
    sf = os.path.join(c.dir("s"), "setup.json")
    json.dump(setup, open(sf, "w"))
    def diff(k, o):
        e = {"pins": k["pins"], "un": k["pins"], "none": k["none"], "xa": k["xa"], "xab": k["xab"], "modf": True, "tenorEnd": True}
        bad = {q: (v, o.get(q)) for q, v in e.items() if o.get(q) != v}
        return ("%s %s %s fwd=%s" % (k["start"], k["end"], k["t"], k["fwd"]), "expected/observed %s %s" % (bad, o.get("exc", ""))) if bad else None
    rep = Replay(exe, args=[sf])
    c.compare(rep, [x for x in r.emitted if x["op"] == "sched"], "schedules", diff)
    stuck = [{"op": "stuck", "t": t, "fwd": f, "start": 44600, "end": 44700} for t, f in
             [("0M", True), ("0M", False), ("0CD", True), ("0W", False), ("EOM", True), ("0BD", True)]]
    c.compare(rep, stuck, "stuck", lambda k, o: None if o.get("rejected") else ("%s" % k, "a schedule with a tenor that does not advance was not rejected"))
