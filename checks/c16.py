from vlib import *
import itertools, random
TECHNIQUE = "TLA+ model of the queue's lock and condition-variable protocol (TLC, all interleavings); its programs run in the code under every bounded schedule, TLC linearizes the recorded histories"
NOTE = ("ConcQueue.tla: all interleavings and spurious wake-ups of client programs, FIFO and no stranded waiter. The same programs run in the code under a deterministic scheduler: every schedule with up to one (thorough: two) preemptions or "
        "spurious wake-ups plus random ones; QueueHist.tla (an atomic FIFO with an interruption flag) must linearize each recorded history, including who may still be blocked at the end.")

def parse(h):
    ev, stuck = [], False
    for x in h.split(";"):
        if not x: continue
        if x == "end": continue
        if x == "stuck": stuck = True; continue
        ev.append((x[0], int(x[1]), x[2], int(x[3:])))
    # adjacent calls commute, adjacent returns commute
    out = []
    for k, g in itertools.groupby(ev, lambda e: e[0]): out += sorted(g)
    return tuple(out), stuck

def tla(i, h):
    return "[id |-> %d, ev |-> <<%s>>, stuck |-> %s]" % (i, ", ".join('<<"%s", %d, "%s", %d>>' % e for e in h[0]), "TRUE" if h[1] else "FALSE")

def programs(c):
    ops = [("P",), ("T",), ("O",), ("I",), ("R",)]
    seqs = [s for n in (1, 2) for s in itertools.product("PTOI", repeat=n)] + [tuple("IR"), tuple("PR"), tuple("RO"), tuple("PC"), tuple("CP"), tuple("EP"), tuple("OE"), tuple("PE")]
    progs = set()
    for a, b in itertools.combinations_with_replacement(seqs, 2): progs.add((a, b))
    three = [("P", "O", "O"), ("PP", "O", "O"), ("P", "PI", "O"), ("PP", "P", "OO"), ("P", "OT", "O"), ("I", "O", "O"), ("PI", "O", "T"), ("PPP", "OO", "O"), ("P", "P", "TT"), ("IR", "O", "P"), ("PT", "PO", "T"), ("PO", "PO", "PO"),
             ("OP", "OP", "P"), ("PPI", "OOO", "O"), ("PP", "I", "O"), ("IRP", "O", "O"), ("PC", "O", "P"), ("PPP", "OOO", "TT"), ("P", "O", "I")]
    rnd = random.Random(c.seed)
    if not c.quick:
        for _ in range(150): three.append(tuple("".join(rnd.choice("PPPTOOI") for _ in range(rnd.choice([1, 2, 2, 3]))) for _ in range(rnd.choice([3, 3, 4]))))
        for _ in range(150): three.append(tuple("".join(rnd.choice("PPPTOOIRCE") for _ in range(rnd.choice([2, 3, 4]))) for _ in range(2)))
    else:
        for _ in range(12): three.append(tuple("".join(rnd.choice("PPPTOOI") for _ in range(rnd.choice([1, 2, 2, 3]))) for _ in range(3)))
    for t in three: progs.add(tuple(tuple(x) for x in t))
    out = []
    for p in sorted(progs):
        n = 0; q = []
        for t in p:
            r = []
            for o in t:
                if o == "P": n += 1; r.append(["P", n])
                else: r.append([o])
            q.append(r)
        out.append(q)
    return out

def main(c):
    exe = build("concdrv", "plain")
    progs = programs(c)
    sets = "{%s}" % ", ".join("<<%s>>" % ", ".join("<<%s>>" % ", ".join("<<\"%s\", %d>>" % (o[0], o[1] if len(o) > 1 else 0) for o in t) for t in p) for p in progs
                              if sum(len(t) for t in p) <= 6)
    rep = Replay(exe, width=8)
    def design(): return c.mc("ConcQueue", {"Programs": sets, "Spurious": "1"}, ["Fifo", "NoStranded", "TypeOk"], name="protocol", workers=4)
    hist = {}
    def explore():
        cases = []
        for i, p in enumerate(progs):
            cases.append({"op": "queue", "prog": p, "bound": 1 if c.quick else 2, "spurious": 1, "limit": 1500 if c.quick else 12000, "random": (100 if len(p) < 3 else 300) if c.quick else 1500, "seed": c.seed + i})
        runs, full = 0, 0
        import concurrent.futures as cf
        parts = [cases[i::16] for i in range(16)]
        with cf.ThreadPoolExecutor(7) as ex:
            for part in ex.map(lambda p: list(rep._run(p)), parts):
                for k, o in part:
                    if "crash" in o or "exc" in o: c.violation("program %s" % k["prog"], {"why": o}); continue
                    runs += o["runs"]; full += o["all"]
                    for h in o["hist"]:
                        if "!" in h: c.violation("history %s" % h[:200], {"why": "the run ended badly", "program": k["prog"], "history": h}); continue
                        hist.setdefault(parse(h), (k["prog"], h))
        return runs, full
    res = c.parallel([explore, design], 2)
    runs, full = res[0]
    keys = sorted(hist)
    log("%d programs, %d schedules run, %d explored completely within the bound, %d distinct histories" % (len(progs), runs, full, len(keys)))
    c.cov["programs"], c.cov["schedules"], c.cov["histories"] = len(progs), runs, len(keys)
    c.cov["traces_validated_against_impl"] += runs
    n = (len(keys) + 3) // 4
    parts = [keys[i:i + n] for i in range(0, len(keys), n)]
    def lin(i, part):
        r = c.mc("QueueHist", {"Hists": "{%s}" % ",\n".join(tla(j + 1, h) for j, h in enumerate(part))}, ["Emitted"], name="linearize%d" % i, workers=2)
        ok = {e["h"] for e in r.emitted}
        return [part[j] for j in range(len(part)) if j + 1 not in ok]
    for bad in c.parallel([lambda i=i, p=p: lin(i, p) for i, p in enumerate(parts)], 4):
        for h in bad:
            c.violation("history %s" % hist[h][1], {"why": "no linearization of this history as a FIFO queue with interruption", "program": hist[h][0], "history": hist[h][1]})
    c.cov["samples"].append({"history": hist[keys[len(keys) // 2]][1]})
