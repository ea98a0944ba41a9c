from vlib import *
import itertools, random
TECHNIQUE = "TLA+ model of the pool's take/run/wait scheme (TLC, every fork-join program and interleaving to the bound); its programs run in the code under bounded and random schedules, TLC judges each recorded history"
NOTE = ("ThreadPool.tla: every fork-join program with up to four tasks (five in the thorough tier) and up to two (three) workers: exactly once, joined, never stuck. The programs, with exceptions, several clients, passive waits, "
        "restarts and stops with pending tasks, run in the code under a deterministic scheduler; PoolHist.tla must accept every recorded history; a run that gets stuck is never accepted.")
PROCS = 6

def parse(h):
    ev = []
    for x in h.split(";"):
        if not x or x == "end": continue
        a, t, b = x[1:].split(",")
        ev.append((x[0], int(a), int(t), int(b)))
    return tuple(ev)

def tla(i, h):
    return '[id |-> %d, procs |-> %d, kind |-> <<%s>>, ev |-> <<%s>>]' % (i, PROCS, ", ".join('"%s"' % k for k in h[0]), ", ".join('<<"%s", %d, %d, %d>>' % e for e in h[1]))

def programs(c, forests):
    rnd = random.Random(c.seed)
    out = []
    def prog(tasks, setup, clients, teardown=(["X"],), w=1.0): out.append((w, {"tasks": tasks, "setup": setup, "clients": clients, "teardown": list(teardown)}))
    def tasks(par, kinds):
        n = len(par)
        return [[kinds[i]] + [j for j in range(n) if par[j] == i + 1] for i in range(n)]
    for f in forests:
        n = len(f)
        roots = [i for i in range(n) if f[i] == 0]
        for workers in (0, 1, 2, 3) if c.quick else (0, 1, 2, 3, 4):
            kinds = [rnd.choice("vvvx") for _ in range(n)]
            prog(tasks(f, kinds), [["G", workers + 1]], [[["S", r] for r in roots] + [["W", r] for r in (roots if rnd.random() < .6 else roots[::-1])]])
            if workers and rnd.random() < .5:
                prog(tasks(f, kinds), [["G", workers + 1]], [[["S", r] for r in roots] + [["F", r] for r in roots]])
    v = lambda n: [["v"] for _ in range(n)]
    # several clients
    prog(v(4), [["G", 2]], [[["S", 0], ["S", 1], ["W", 0], ["W", 1]], [["S", 2], ["S", 3], ["W", 3], ["W", 2]]], w=2)
    prog(v(4), [["G", 3]], [[["S", 0], ["W", 0]], [["S", 1], ["W", 1]], [["S", 2], ["S", 3], ["F", 2], ["F", 3]]], w=2)
    prog(v(4), [["G", 1]], [[["S", 0], ["S", 1], ["W", 0], ["W", 1]], [["S", 2], ["S", 3], ["W", 3], ["W", 2]]], w=2)
    prog([["v", 2, 3], ["x", 4], ["x"], ["v"], ["v"]], [["G", 2]], [[["S", 0], ["W", 0]], [["S", 1], ["W", 1]]], w=2)
    # stop with tasks pending, running, and none; restart; start again without restart
    for w in (1, 2, 3):
        prog(v(3), [["G", w]], [[["S", 0], ["S", 1], ["S", 2], ["X"], ["G", 2], ["W", 0], ["W", 1], ["W", 2]]], w=3)
        prog(v(4), [["G", w]], [[["S", 0], ["S", 1], ["X"], ["S", 2], ["S", 3], ["H", 3], ["W", 2], ["W", 3], ["W", 0]]], w=3)
        prog(v(3), [["G", w]], [[["S", 0], ["W", 0], ["G", 3], ["S", 1], ["F", 1], ["G", 2], ["S", 2], ["F", 2]]], w=2)
        prog([["n", 1, 2], ["v"], ["x"]], [["G", w]], [[["S", 0], ["W", 0], ["X"]]], teardown=[["H", 2], ["X"]], w=3)
        prog(v(4), [["G", w]], [[["S", 0], ["S", 1], ["X"], ["G", w]], [["S", 2], ["W", 2]]], w=3)
    prog(v(2), [["X"], ["G", 0], ["H", 2], ["G", 40], ["G", 1], ["H", 5], ["X"], ["X"], ["H", 4], ["G", 2]], [[["S", 0], ["S", 1], ["F", 0], ["W", 1]]])
    prog(v(3), [["X"]], [[["S", 0], ["S", 1], ["W", 1], ["W", 0], ["H", 2], ["S", 2], ["F", 2]]])
    prog(v(12), [["G", 3]], [[["S", i] for i in range(12)] + [["W", i] for i in range(12)]], w=2)
    prog(v(12), [["G", 4]], [[["S", i] for i in range(6)] + [["F", i] for i in range(6)], [["S", i] for i in range(6, 12)] + [["W", i] for i in range(6, 12)]], w=2)
    return out

def main(c):
    exe = build("concdrv", "plain")
    design = c.mc("ThreadPool", {"MaxTasks": "4" if c.quick else "5", "MaxWorkers": "2" if c.quick else "3"}, ["Once", "Joined", "NoDeadlock", "Emitted"], name="scheme", workers=8)
    forests = [e["par"] for e in design.emitted]
    if not c.quick: forests = [f for f in forests if len(f) < 5] + random.Random(c.seed).sample([f for f in forests if len(f) == 5], 40)
    progs = programs(c, forests)
    rep = Replay(exe, width=8, per_case_timeout=60)
    hist = {}
    cases = []
    for i, (w, p) in enumerate(progs):
        q = dict(p); q.update({"op": "pool", "bound": 1, "spurious": 0 if i % 3 else 1, "limit": int((60 if c.quick else 2000) * w), "random": int((110 if c.quick else 1000) * w), "seed": c.seed * 7 + i})
        cases.append(q)
    import concurrent.futures as cf
    runs, full = 0, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for part in ex.map(lambda p: list(rep._run(p)), [cases[i::24] for i in range(24)]):
            for k, o in part:
                if "crash" in o or "exc" in o: c.violation("program %s" % json.dumps(k), {"why": o}); continue
                runs += o["runs"]; full += o["all"]
                for h in o["hist"]:
                    if "!" in h or "stuck" in h:
                        c.violation("history %s" % h[:300], {"why": "the run got stuck" if "stuck" in h else "the run ended badly", "program": k, "history": h}); continue
                    hist.setdefault((tuple(t[0] for t in k["tasks"]), parse(h)), (k, h))
    keys = sorted(hist)
    log("%d programs, %d schedules run, %d explored completely within the bound, %d distinct histories" % (len(progs), runs, full, len(keys)))
    c.cov["programs"], c.cov["schedules"], c.cov["histories"] = len(progs), runs, len(keys)
    c.cov["traces_validated_against_impl"] += runs
    random.Random(c.seed).shuffle(keys)
    keys = keys[:9000 if c.quick else 120000]
    m = max(t for h in keys for e in h[1] for t in (e[2],))
    parts = [keys[i::8 if c.quick else 24] for i in range(8 if c.quick else 24)]
    def judge(i, part):
        r = c.mc("PoolHist", {"Hists": "{%s}" % ",\n".join(tla(j + 1, h) for j, h in enumerate(part)), "MaxThread": str(m)}, ["Emitted"], name="judge%d" % i, workers=2)
        ok = {e["h"] for e in r.emitted}
        return [part[j] for j in range(len(part)) if j + 1 not in ok]
    for bad in c.parallel([lambda i=i, p=p: judge(i, p) for i, p in enumerate(parts)], 4):
        for h in bad:
            c.violation("history %s" % hist[h][1], {"why": "PoolHist.tla does not accept this history", "program": hist[h][0], "history": hist[h][1]})
    c.cov["samples"].append({"history": hist[keys[len(keys) // 2]][1]})
