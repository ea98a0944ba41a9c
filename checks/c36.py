from vlib import *
import datetime
TECHNIQUE = "TLA+ model of the notes in force in several threads, with scopes left by return and by error (TLC, exhaustive on short and sampled on long histories), replayed step by step into the library's notes and errors on real threads"
NOTE = ("ErrorNotes.tla: scopes entered and left, noted variables changed, errors raised by each macro and caught at any depth, in up to three threads interleaved step by step. "
        "Replay: every message must list exactly the notes in force in its thread, outermost first, with the values the variables have then, after the message and place of the error.")
def text(n):
    v, k = n["v"], n["k"]
    day = (datetime.date(2024, 1, 1) + datetime.timedelta(v)).isoformat()
    return {"int": "value = %d" % v, "double": "value = %f" % (v + 0.5), "string": "value = text %d" % v, "date": "value = " + day, "time": "value = " + day + " 06:00:00",
            "chars": "value = chars %d" % v, "named": "a name = %d" % v, "note": "note %d" % v}[k]
def main(c):
    q = c.quick
    rep = Replay(build("notedrv", "asan"))
    inv = ["Open", "Emitted"]
    props = dict(extra="PROPERTY Apart\nPROPERTY Shrinks\n")
    kinds = '{"int", "double", "string", "date", "time", "chars", "named", "note"}'
    r0, r1 = c.parallel([lambda: c.mc("ErrorNotes", {"Threads": "{1, 2}", "Kinds": '{"int", "note"}', "Vals": "{3}", "MaxDepth": "2", "MaxOps": "4" if q else "5", "R": "0"}, inv, name="short", workers=4, **props),
                         lambda: c.mc("ErrorNotes", {"Threads": "{1, 2, 3}", "Kinds": kinds, "Vals": "-3..60", "MaxDepth": "7", "MaxOps": "40", "R": "1"}, inv, name="long", simulate=300 if q else 4000, depth=42, seed=c.seed, workers=3)], 2)
    cases, seen = [], set()
    for e in (r0.emitted[c.seed % 5::5] if q else r0.emitted) + r1.emitted:
        key = json.dumps(e["h"])
        if key in seen: continue
        seen.add(key)
        cases.append({"op": "notes", "threads": max(h["t"] for h in e["h"]), "h": e["h"]})
    def diff(k, o):
        key = " ".join("%d:%s%s" % (h["t"], h["op"], h["k"] and "(" + h["k"] + ")") for h in k["h"])[:300]
        if "exc" in o: return key, o["exc"]
        for i, (h, m) in enumerate(zip(k["h"], o["msg"])):
            if h["op"] not in ("throw", "require", "assure", "script"):
                if m: return key, "step %d raised %s" % (i, m)
                continue
            if not m: return key, "step %d raised nothing" % i
            if m.startswith("script") != (h["op"] == "script"): return key, "step %d raised the wrong kind of error" % i
            lines = m.split("\n")
            want = ["error %d" % i] + [text(n) for n in h["notes"]]
            if lines[-len(want):] != want or "notedrv.cpp:" not in m or not any("Run" in x for x in lines[:-len(want)]) or len(lines) > len(want) + 2: return key, "step %d says %r, expected to end with %r" % (i, m, want)
    c.compare(rep, cases, "notes", diff)
