from scriptlib import *
import c09
TECHNIQUE = "TLA+ semantics of the script language; programs derived by TLC are compiled and compared with the specified values and with interpretation"
NOTE = ("The programs of ScriptEval.tla (see C09) are compiled, with and without domain analysis, for plain and adjoint numbers, and evaluated on five paths in several orders and from "
        "copied states, built with address and bounds checking. Values must be those of the specification, and equal to the interpreter's wherever the specification leaves them open.")
MODES = ["i", "c", "cn", "cd"]

def main(c):
    exe = build("scriptdrv", "asan")
    cases = [dict(k, modes=MODES) for k in programs(c, False)]
    def diff(k, o):
        if "exc" in o: return (text(k), "rejected: " + o["exc"])
        for m in ("c", "cn"):
            d = against_spec(k, o, m) or alike(o, "i", m, k, tol=1e-13, exact_only=False)
            if d: return (text(k), d)
        if "exc" not in o["cd"]:                      # (what preprocessing rejects is the matter of C11)
            d = against_spec(k, o, "cd")
            if d: return (text(k), d)
    rep = Replay(exe)
    c.compare(rep, cases, "programs", diff)
    c09.deep_cases(c, rep, MODES, diff)
