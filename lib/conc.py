"""Programs of several threads: schedules run in the code, histories linearized by TLC."""
import itertools
from vlib import *

def parse(h):
    ev = [(x[0], int(x[1]), x[2], int(x[3:])) for x in h.split(";") if x and x != "end"]
    out = []
    for _, g in itertools.groupby(ev, lambda e: e[0]): out += sorted(g)    # adjacent calls commute, adjacent returns commute
    return tuple(out)

def explore(c, exe, module, progs, bound=2, limit=1500, rnd=100, consts=None):
    rep = Replay(exe, width=8)
    cases = [{"op": "run", "prog": p, "bound": bound, "limit": limit, "random": rnd, "seed": c.seed + i} for i, p in enumerate(progs)]
    import concurrent.futures as cf
    hist, runs, full = {}, 0, 0
    with cf.ThreadPoolExecutor(7) as ex:
        for part in ex.map(lambda p: list(rep._run(p)), [cases[i::14] for i in range(14)]):
            for k, o in part:
                if "crash" in o or "exc" in o: c.violation("program %s" % k["prog"], {"why": o}); continue
                runs += o["runs"]; full += o["all"]
                for h in o["hist"]:
                    if "!" in h: c.violation("history %s" % h[:200], {"why": "the run ended badly", "program": k["prog"], "history": h}); continue
                    hist.setdefault(parse(h), (k["prog"], h))
    keys = sorted(hist)
    log("%d programs, %d schedules run, %d explored completely within the bound, %d distinct histories" % (len(progs), runs, full, len(keys)))
    c.cov["programs"], c.cov["schedules"], c.cov["histories"] = len(progs), runs, len(keys)
    c.cov["traces_validated_against_impl"] += runs
    if not keys: return
    n = (len(keys) + 3) // 4
    parts = [keys[i:i + n] for i in range(0, len(keys), n)]
    def tla(i, h): return "[id |-> %d, ev |-> <<%s>>]" % (i, ", ".join('<<"%s", %d, "%s", %d>>' % e for e in h))
    def lin(i, part):
        r = c.mc(module, dict({"Hists": "{%s}" % ",\n".join(tla(j + 1, h) for j, h in enumerate(part))}, **(consts or {})), ["Emitted"], name="linearize%d" % i, workers=2)
        ok = {e["h"] for e in r.emitted}
        return [part[j] for j in range(len(part)) if j + 1 not in ok]
    for bad in c.parallel([lambda i=i, p=p: lin(i, p) for i, p in enumerate(parts)], 4):
        for h in bad:
            c.violation("history %s" % hist[h][1], {"why": "no linearization of this history by %s" % module, "program": hist[h][0], "history": hist[h][1]})
    c.cov["samples"].append({"history": hist[keys[len(keys) // 2]][1]})

def races(c, exe, progs, rounds, name):
    rep = Replay(exe, width=4, per_case_timeout=60)
    c.compare(rep, [{"op": "run", "prog": p, "random": rounds} for p in progs], name, lambda k, o: ("program %s" % k["prog"], o["exc"]) if "exc" in o else None)
