from scriptlib import *
TECHNIQUE = "TLA+ semantics of the script language; programs derived by TLC are evaluated with and without preprocessing and compared with the specified values"
NOTE = ("The programs of ScriptEval.tla (see C09), many of whose conditions are decided or half-decided by the possible values of their variables, are evaluated after domain analysis and condition "
        "pruning, interpreted and compiled; values must be those of the specification and of the unprocessed script.")

def main(c):
    exe = build("scriptdrv", "asan")
    cases = [dict(k, modes=["i", "id", "cd"]) for k in programs(c, False, True)]
    n = [0]
    def diff(k, o):
        if "exc" in o: return (text(k), "rejected: " + o["exc"])
        if "exc" in o["id"]:
            # a division by a constant zero is reported by the analysis
            n[0] += 1
            if k["dz"] and "Division by {0}" in o["id"]["exc"]: return None
            return (text(k), "rejected by preprocessing: " + o["id"]["exc"])
        for m in ("id", "cd"):
            d = against_spec(k, o, m) or alike(o, "i", m, k)
            if d: return (text(k), d)
    rep = Replay(exe)
    c.compare(rep, cases, "programs", diff)
    c.cov["rejected_for_undefined_values"] = n[0]
