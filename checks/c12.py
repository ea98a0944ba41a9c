from scriptlib import *
TECHNIQUE = "TLA+ fuzzy semantics (degrees of truth, possible values, blended branches); programs derived by TLC replayed into the fuzzy evaluator"
NOTE = ("ScriptLang.tla defines degrees of truth, their combination and the blending of branches in exact arithmetic, with the possible values of every variable deciding how a comparison is smoothed. "
        "Every program is evaluated in fuzzy mode (plain and adjoint numbers, all evaluator reuse patterns) on five paths and must give the specified values; TLC checks that possible values cover actual ones.")

def main(c):
    exe = build("scriptdrv", "asan")
    cases = [dict(k, modes=["f", "fn"]) for k in programs(c, True, True)]
    n = [0]
    def diff(k, o):
        if "exc" in o: return (text(k), "rejected: " + o["exc"])
        if "exc" in o["f"] and k["dz"] and "Division by {0}" in o["f"]["exc"]:
            n[0] += 1
            return None
        for m in ("f", "fn"):
            d = against_spec(k, o, m, fuzzy=True)
            if d: return (text(k), d)
    c.cov["decided_values"] = sum(x is not None for k in cases for e in want(k, True) for x in e.values())
    c.cov["blended_programs"] = sum(1 for k in cases if any(f != e for f, e in zip(want(k, True), want(k, False))))
    rep = Replay(exe)
    c.compare(rep, cases, "programs", diff)
    c.cov["rejected_for_undefined_values"] = n[0]
