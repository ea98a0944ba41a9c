from scriptlib import *
TECHNIQUE = "TLA+ semantics of the script language; TLC enumerates and randomly derives programs; their values are replayed into the interpreter"
NOTE = ("ScriptLang.tla gives the meaning of expressions, conditions, statements and past events in exact arithmetic; ScriptEval.tla grows programs over up to three event dates. "
        "Every program is evaluated on six market paths by the interpreter (double and adjoint numbers), forwards and backwards with one evaluator, and with copied, moved and assigned evaluators.")

def main(c):
    exe = build("scriptdrv", "asan")
    cases = [dict(k, modes=["i", "in"]) for k in programs(c, False)]
    def diff(k, o):
        if "exc" in o: return (text(k), "rejected: " + o["exc"])
        for m in k["modes"]:
            d = against_spec(k, o, m)
            if d: return (text(k), d)
    c.cov["decided_values"] = sum(x is not None for k in cases for e in want(k, False) for x in e.values())
    rep = Replay(exe)
    c.compare(rep, cases, "programs", diff)
    deep_cases(c, rep, ["i", "in"], diff)

def deep_cases(c, rep, modes, diff):
    """Long histories and deep expressions: the value of the definition, or an error; never a crash or another value."""
    deep = []
    def add(ev, past, x, y=0):
        n = len(NUM_PATHS)
        deep.append({"op": "eval", "consts": {"k": "3"}, "past": past, "events": ev, "paths": NUM_PATHS, "eps": 1.0, "modes": modes, "may_fail": True,
                     "ok": [True] * n, "env": [{"x": [x, 1], "y": [y, 1]}] * n, "fok": [True] * n, "fenv": [{"x": [x, 1], "y": [y, 1]}] * n})
    for d in (5, 30, 60, 63, 64, 65, 100, 127, 128, 129, 200, 257, 400):
        add(["x = " + "1 + (" * d + "1" + ")" * d], [], d + 1)
        add(["y = 1 x = " + "y + (" * d + "y" + ")" * d], [], d + 1, 1)
        add(["x = " + "-(" * d + "1" + ")" * d], [], 1 if d % 2 == 0 else -1)
        add(["x = " + " + ".join(["1"] * d)], [], d)
        add(["x = 0 " + "x = x + 1 " * d], [], d)
        add(["x = 0 " + "x PAYS 0 " * d], [], 0)
        add(["y = 0"], ["x = 1 " + "y PAYS 1 " * d], 1)
        add(["IF " + "(" * d + "SPOT() > 0" + ")" * d + " THEN x = 1 ELSE x = 2 END"], [], 1)
        add(["IF " + "(1 > 0 AND " * d + "SPOT() > 0" + ")" * d + " THEN x = 1 ELSE x = 2 END"], [], 1)
        add(["IF " + "(SPOT() < 0 OR " * d + "SPOT() > 0" + ")" * d + " THEN x = 1 ELSE x = 2 END"], [], 1)
        add(["IF SPOT() > 0 THEN " * d + "x = 1 " + "ELSE x = 2 END " * d], [], 1)
        add(["IF SPOT() > 0 THEN x = 1 ELSE x = 2 END " * d], [], 1)
        add(["x = 0"] + ["x = x + 1"] * 2, [], 2)
        add(["x = " + "MAX(1, " * d + "2" + ")" * d], [], 2)
    def dd(k, o):
        for m in k["modes"]:
            if "exc" in o.get(m, {"exc": 1}): continue
            d = against_spec(k, o, m)
            if d: return (text(k)[:80] + "... (%d)" % len(text(k)), d)
        # shallow ones must work
        if len(text(k)) < 150:
            return diff(k, o)
    c.compare(rep, deep, "depth", dd)
