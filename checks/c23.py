from vlib import *
import json as J, math
TECHNIQUE = "TLA+ model of writing and reading object graphs by tags (TLC), its graphs and documents replayed through the JSON and tabular archives, in memory and through files"
NOTE = ("Archive.tla: every graph of up to 3 nodes (leaves, curves with a base, bags with repeated and shared entries) with every single damage of its document (missing tag, dangling reference, missing or unknown type, missing mandatory field), and simulated graphs of 9 nodes and of 24 nodes gathered in one bag; "
        "the payloads run through a catalogue of every storable type with empty, long, tiny, huge and awkward values; each graph goes through JSON text, JSON file, table and table file, and what comes back is compared field by field, sharing included. "
        "Limits: text cells that spell a date or a number are left out for JSON, date-times are whole seconds, the tabular form has no trailing blanks and its file form only single-line text without commas.")
def n(v): return {"t": "n", "v": v}
def s(v): return {"t": "s", "v": v}
def d(*v): return {"t": "d", "v": list(v)}
def dt(*v): return {"t": "dt", "v": list(v)}
def b(v): return {"t": "b", "v": v}
E = {"t": "e"}
T3 = 1.0 / 3
ODD = [0.1 + 0.2, T3, 1e-9, -2.5e-7, 1e20, 123456789.123456789, 5e-324, 1.7976931348623157e308, 0.0, -1.0, 2.0 ** 53 + 2, 0.000001, 1e15 + 0.3, math.pi]
LONG = [round(0.01 * i, 4) + 1e-9 * i for i in range(400)]
MAND = {"Box": ["contents"], "Interp1Linear_v1": ["x", "f"], "Interp2Linear_v1": ["x", "y", "f"], "BSModelData_v1": ["spot", "vol", "rate", "div"], "DupireModelData_v1": ["spot", "rate", "repo", "spots", "times", "vols"],
        "PiecewiseConstant_v1": ["knotDates", "fRight"], "PseudoRSG_v1": ["seed", "n_dim", "precise"], "ScriptProductData_v1": ["dates", "events"], "Fixings": ["fixings", "fixing_times"], "DiscountPWLF_v1": ["knotDates", "leftVals", "rightVals"],
        "Report_v1": ["axis_names", "sizes", "vals"]}
KIND = {"contents": "cm", "x": "dv", "y": "dv", "spots": "dv", "times": "dv", "vols": "dm", "knotDates": "date", "fRight": "dv", "leftVals": "dv", "rightVals": "dv", "dates": "cv", "events": "sv", "fixings": "dv", "fixing_times": "dtv",
        "spot": "n", "vol": "n", "rate": "n", "div": "n", "repo": "n", "seed": "n", "n_dim": "n", "precise": "b", "axis_names": "sv", "sizes": "iv", "vals": "dv", "header_labels": "svm", "header_values": "cmm"}
def P(type, name, forms="jtc", hand=True, **f): return {"type": type, "name": name, "forms": forms, "f": f, "hand": hand}
CAT = [
    P("BSModelData_v1", "m", spot=100.0, vol=T3, rate=1e-9, div=-0.01),
    P("Box", "box", contents=[[n(1.5), s("hello"), b(True)], [d(2023, 1, 22), n(3.0), dt(2023, 1, 22, 43200)]]),
    P("Box", "", contents=[]),
    P("Box", "one", contents=[[n(T3)]]),
    P("Box", "column", contents=[[n(1.0)], [s("b")], [n(3.0)], [d(2024, 2, 29)]]),
    P("Box", "holes", contents=[[n(1.0), E, n(2.0)], [E, E, n(3.0)], [E, E, E], [E, n(4.0), n(5.0)]]),
    P("Box", "blank column", contents=[[n(1.0), E, n(2.0)], [n(3.0), E, s("z")]]),
    P("Box", "odd", contents=[[n(v) for v in ODD[:7]], [n(v) for v in ODD[7:]]]),
    P("Box", "times", contents=[[dt(2024, 2, 29, x) for x in (0, 1, 59, 60, 3599, 3600, 43200, 86399)]]),
    P("Box", "quoted \"name\" \\ here", forms="j", contents=[[s('say "hi"'), s("back\\slash"), s("tab\tand\nline")], [s("{}[]:,"), s("\u00e9t\u00e9"), s(",")]]),
    P("Box", "2024", forms="t", contents=[[s("123"), s("true"), s("2020-01-01"), s("$1"), s("~Box")]]),
    P("Box", "12.5", forms="c", contents=[[s("123"), s("1e5"), s("TRUE"), s("2020-01-01"), s("x y"), s("=a="), s("2020-01-01 10:00:00")]]),
    P("Interp1Linear_v1", "i1", x=[1.0, 2.0, 3.0], f=[0.1 + 0.2, 1e-9, 1e20]),
    P("Interp1Linear_v1", "", x=[1.0], f=[T3]),
    P("Interp1Linear_v1", "long", x=LONG, f=[v * T3 for v in LONG]),
    P("Interp2Linear_v1", "i2", x=[0.1, 0.2], y=[1.0, 2.0, 3.5], f=[[T3, 2.0, 1e-8], [4.0, 5.0, math.pi]]),
    P("Interp2Linear_v1", "i2 column", x=[0.1, 0.2, 0.3], y=[1.0], f=[[1.0], [2.0], [1e-12]]),
    P("Cubic1", "cubic", hand=False, x=[0.0, 1.0, 3.0, 7.0], f=[1.0, T3, -2.0, 1e-3], lhs=0.0, rhs=1e-7),
    P("BSModelData_v1", "", spot=1e-7, vol=0.0, rate=-1e-9, div=1e15 + 0.3),
    P("DupireModelData_v1", "dupire", spot=100.0, rate=T3, repo=1e-8, spots=[90.0, 100.0 + T3], times=[0.5, 1.0, 2.0], vols=[[0.15, 0.16, T3], [0.2, 1e-7, 0.3]]),
    P("DupireModelData_v1", "empty", spot=100.0, rate=0.0, repo=0.0, spots=[], times=[], vols=[]),
    P("PiecewiseConstant_v1", "pwc", knotDates=[[2020, 1, 1], [2020, 2, 29], [2100, 12, 31]], fRight=[T3, -1e-9, 3.0]),
    P("PiecewiseConstant_v1", "", knotDates=[[2020, 1, 1]], fRight=[1.0]),
    P("PseudoRSG_v1", "MRG32", seed=1024.0, n_dim=3.0, precise=True),
    P("PseudoRSG_v1", "IRN", seed=7.0, n_dim=2.0, precise=False),
    P("ScriptProductData_v1", "product", dates=[s("K"), d(2099, 9, 15), d(2100, 9, 15)], events=["100", "x = MAX(spot() - K, 0.0)", "y pays x * 2"], forms="jt"),
    P("ScriptProductData_v1", "lines", forms="j", dates=[d(2099, 9, 15)], events=["x = 1\ny = 2\nIF spot() > 10 THEN x = 3 END"]),
    P("ScriptProductData_v1", "", dates=[d(2099, 9, 15), d(2099, 9, 16)], events=["x = 1 y = x", "call pays y"]),
    P("Fixings", "EQ[ABC]", fixings=[1.0, T3, 1e-9], fixing_times=[[2020, 1, 1, 0], [2020, 1, 1, 39600], [2024, 2, 29, 86399]]),
    P("Fixings", "none", fixings=[], fixing_times=[]),
    P("Report_v1", "report", axis_names=["z", "a"], sizes=[2, 3], vals=[1.0, T3, 3.0, 4.0, 1e-9, 6.0], header_labels=[["l1", "l2"], ["m"]], header_values=[[[n(1.0), s("u")], [n(2.0), s("v")]], [[s("p")], [d(2020, 1, 2)], [n(T3)]]]),
    P("Report_v1", "", axis_names=["only"], sizes=[4], vals=[1.0, 2.0, 3.0, 4.0], header_labels=[[]], header_values=[[]]),
    P("Report_v1", "no rows", axis_names=["r", "c"], sizes=[0, 2], vals=[], header_labels=[["x"], ["y"]], header_values=[[], [[n(1.0)], [n(2.0)]]]),
]
CURVES = [
    P("DiscountPWLF_v1", "curve", knotDates=[[2020, 1, 1], [2021, 1, 1]], leftVals=[0.01, T3], rightVals=[0.02, 0.03]),
    P("DiscountPWLF_v1", "", knotDates=[[2020, 1, 1]], leftVals=[1e-9], rightVals=[0.05]),
    P("DiscountPWLF_v1", "third", knotDates=[[2020, 1, 1], [2020, 2, 29], [2020, 3, 1], [2022, 12, 31]], leftVals=[0.01, 0.02, -T3, 0.0], rightVals=[0.5, 0.06, 0.07, 1e-5]),
]
KEYS = ["", "alpha", "Beta", "c d"]

def nodes(k, i):
    """the concrete nodes of an abstract graph: payloads are dealt from the catalogue"""
    out, forms = [], set("jtc")
    for j, x in enumerate(k):
        if x["k"] == "B":
            keys = [KEYS[t - 1] for t in x["keys"]]
            out.append({"type": "Bag", "name": ["", "bag"][(i + j) % 2], "keys": keys, "kids": x["kids"], "f": {}, "hand": True})
        else:
            src = (CURVES if x["k"] == "C" else CAT)
            q = src[(x["p"] + i) % len(src)]
            forms &= set(q["forms"])
            out.append({"type": q["type"], "name": q["name"], "f": q["f"], "kids": x["kids"], "hand": q["hand"]})
    return out, forms

def date(v): return "%04d-%02d-%02d" % tuple(v)
def dtime(v): return "%s %02d:%02d:%02d" % (date(v[:3]), v[3] // 3600, v[3] // 60 % 60, v[3] % 60)
def jcell(c): return None if c["t"] == "e" else date(c["v"]) if c["t"] == "d" else dtime(c["v"]) if c["t"] == "dt" else c["v"]
def jval(kind, v):
    if kind in ("dm", "cm"):
        return {"rows": len(v), "cols": len(v[0]) if v else 0, "vals": [jcell(x) if kind == "cm" else x for r in v for x in r]}
    if kind == "date": return [date(x) for x in v]
    if kind == "dtv": return [dtime(x) for x in v]
    if kind == "cv": return [jcell(x) for x in v]
    return v
def fields(nd, q=None):
    """(field, kind, value) of a definition"""
    out = []
    for k, v in nd["f"].items():
        kind = "dm" if nd["type"] == "Interp2Linear_v1" and k == "f" else "dv" if k == "f" else KIND[k]
        if kind in ("svm", "cmm"): out += [("%s%d" % (k, i), kind[:-1], x) for i, x in enumerate(v)]
        else: out.append((k, kind, v))
    return out
def render(doc, nds, mut):
    """a document as JSON value and as a table"""
    nd = nds[doc["node"] - 1]
    me = doc["def"] and mut[1] == doc["tag"]
    typ = nd["type"]
    if not doc["def"]: return {"$tag": str(doc["tag"])}, [[s("$%d" % doc["tag"])]]
    if me and mut[0] == "unknown": typ = "Nothing_v7"
    js = {}
    if doc["tag"]: js["$tag"] = str(doc["tag"])
    if not (me and mut[0] == "notype"): js["~type"] = typ
    else: typ = None
    rows = []
    def row(name, block):
        for i, r in enumerate(block): rows.append([E, s(name) if i == 0 else E] + r)
    if nd["name"]: js["name"] = nd["name"]; row("name", [[s(nd["name"])]])
    fs = fields(nd)
    if me and mut[0] == "drop": fs = [x for x in fs if x[0] != mut[2]]
    for k, kind, v in fs:
        js[k] = jval(kind, v)
        if kind == "cm": t = v
        elif kind == "dm": t = [[n(x) for x in r] for r in v]
        elif kind == "n": t = [[n(v)]]
        elif kind == "b": t = [[b(v)]]
        elif kind in ("dv", "iv"): t = [[n(x) for x in v]]
        elif kind == "date": t = [[d(*x) for x in v]]
        elif kind == "dtv": t = [[dt(*x) for x in v]]
        elif kind == "sv": t = [[s(x) for x in v]]
        else: t = [v]
        row(k, t if t and t[0] else [[E]])
    names = ["base"] if nd["type"] == "DiscountPWLF_v1" else ["contents%d" % i for i in range(len(doc["kids"]))]
    if nd["type"] == "Bag" and nd["keys"]: js["keys"] = nd["keys"]; row("keys", [[s(x) for x in nd["keys"]]])
    for name, kid in zip(names, doc["kids"]):
        kj, kt = render(kid, nds, mut)
        js[name] = kj
        row(name, kt)
    if not rows: rows = [[E]]
    if typ is None: rows[0][0] = s("$%d" % doc["tag"]) if doc["tag"] else s("none")
    else: rows[0][0] = s(("$%d~%s" % (doc["tag"], typ)) if doc["tag"] else "~" + typ)
    return js, rows
def table(rows):
    w = max(3, max(len(r) for r in rows))
    return [r + [E] * (w - len(r)) for r in rows]

def main(c):
    exe = build("arcdrv", "asan")
    rep = Replay(exe)
    PL, CP = "1..%d" % len(CAT), "1..%d" % len(CURVES)
    FULL = "{%s}" % ", ".join(str(i) for i, x in enumerate(CAT) if i and set(x["forms"]) >= set("jtc"))
    runs = c.parallel([
        lambda: c.mc("Archive", {"MaxNodes": "3", "MaxKids": "2", "NKeys": "2", "Payloads": "{1}", "CurvePayloads": "{1}", "Wide": "FALSE"}, ["Sound", "Emitted"], name="all graphs of 3 nodes", workers=4),
        lambda: c.mc("Archive", {"MaxNodes": "9", "MaxKids": "5", "NKeys": "4", "Payloads": PL, "CurvePayloads": CP, "Wide": "FALSE"}, ["Sound", "Emitted"], name="graphs of 9 nodes", spec="RSpec", simulate=600 if c.quick else 3000, depth=12, seed=c.seed, workers=4),
        lambda: c.mc("Archive", {"MaxNodes": "24", "MaxKids": "5", "NKeys": "4", "Payloads": FULL, "CurvePayloads": CP, "Wide": "TRUE"}, ["Sound", "Emitted"], name="graphs of 24 nodes", spec="RSpec", simulate=200 if c.quick else 600, depth=27, seed=c.seed, workers=4)], 2)
    lone = [{"g": [{"k": "L", "p": i, "keys": [], "kids": []}], "canon": [{"k": "L", "p": i, "keys": [], "kids": []}], "doc": {"tag": 0, "def": True, "node": 1, "kids": []}, "mut": ["none", 0], "rej": False} for i in range(len(CAT))]
    lone += [{"g": [{"k": "B", "p": m, "keys": [2] * m, "kids": [1] * 0 + list(range(1, m + 1))}], "mut": None} for m in ()]
    wide = []
    for m in (12, 40):       # many entries: positions beyond 9 sort differently as text
        g = [{"k": "L", "p": i, "keys": [], "kids": []} for i in range(6)]
        g.append({"k": "B", "p": 0, "keys": [1 + (4 * i) // m for i in range(m)], "kids": [1 + (i * 5) % 6 for i in range(m)]})
        order = [7] + list(dict.fromkeys(g[6]["kids"]))
        wide.append({"g": g, "canon": [dict(g[x - 1], kids=[order.index(t) + 1 for t in g[x - 1]["kids"]]) for x in order], "doc": None, "mut": ["none", 0], "rej": False})
    def shape(k, key, o, what):
        got, want = o[what], k["want"]
        if isinstance(got, str): return key, "%s: %s" % (what, got)
        if len(got) != len(want): return key, "%s: %d objects come back, expected %d" % (what, len(got), len(want))
        for i, (x, y) in enumerate(zip(got, want)):
            if y["k"] == "C" and x.get("kids") != y["kids"]: return key, "%s: base %s, expected %s" % (what, x.get("kids"), y["kids"])
            if y["k"] == "B" and (x.get("kids") != y["kids"] or x.get("keys") != [KEYS[t - 1] for t in y["keys"]]): return key, "%s: entries %s under %s, expected %s under %s" % (what, x.get("kids"), x.get("keys"), y["kids"], [KEYS[t - 1] for t in y["keys"]])
        if got != o["orig"]:
            for x, y in zip(got, o["orig"]):
                for f in y:
                    if x.get(f) != y[f]: return key, "%s: %s of %s is %s, was %s" % (what, f, y["type"], str(x.get(f))[:120], str(y[f])[:120])
            return key, what + ": differs"
    def diff(k, o):
        key = "%s %s" % (" ".join(x["type"] + (str(x["kids"]) if x["kids"] else "") for x in k.get("nodes", [])), " ".join(map(str, k.get("mut", ["round"]))))
        if "exc" in o: return key, o["exc"]
        if k["op"] == "round":
            r = shape(k, key, o, "orig")
            if r: return r
            for f, name in (("j", "json"), ("j", "jsonfile"), ("t", "table"), ("c", "csv")):
                if f in k["forms"]:
                    r = shape(k, key, o, name)
                    if r: return r
            if "j" in k["forms"] and o["written"] != len(k["want"]): return key, "%d definitions written for %d objects" % (o["written"], len(k["want"]))
        else:
            for name in ("json", "jsonfile", "table"):
                if name in o:
                    if k["rej"]:
                        if not isinstance(o[name], str): return key, "%s: accepted, expected rejection" % name
                    else:
                        r = shape(k, key, o, name)
                        if r: return r
    rounds, reads, seen = [], [], set()
    def take(es, step):
        for i, e in enumerate(es):
            i *= step
            nds, forms = nodes(e["g"], i)
            gk = J.dumps([e["g"], i % 97])
            if e["mut"][0] == "none":
                rounds.append({"op": "round", "nodes": nds, "forms": "".join(sorted(forms)), "want": e["canon"]})
            if e["doc"] is None or not all(x["hand"] for x in nds): continue
            mut = list(e["mut"])
            if mut[0] == "drop":
                tagged = {}
                def walk(x):
                    if x["def"]: tagged[x["tag"]] = x["node"]; [walk(y) for y in x["kids"]]
                walk(e["doc"])
                mand = MAND.get(nds[tagged[mut[1]] - 1]["type"])
                if not mand: continue
                mut.append(mand[i % len(mand)])
            js, rows = render(e["doc"], nds, mut)
            k = {"op": "read", "nodes": nds, "mut": mut, "rej": e["rej"], "want": e["canon"]}
            if "j" in forms: k["json"] = J.dumps(js)
            if "t" in forms: k["table"] = table(rows)
            if mut[0] == "drop" and mut[2] == "contents" and nds[tagged[mut[1]] - 1]["f"]["contents"] == []: pass
            reads.append(k)
    take(lone, 0)
    take(wide, 1)
    small = runs[0].emitted
    take(small, 1)
    take(runs[1].emitted, 1)
    take(runs[2].emitted, 0)
    c.compare(rep, rounds, "round trips", diff)
    c.compare(rep, reads, "documents", diff)
    bad = ["", "{", "[]", "3", "null", "{}", '"x"', '{"~type": 3}', '{"~type": "Box"}', '{"~type": "Box", "contents": 3}', '{"~type": "Box", "contents": {"cols": 2}}', '{"~type": "Box", "contents": {"cols": 2, "vals": [1, 2, 3]}}', '{"~type": "Box", "contents": {"cols": 0, "vals": [1]}}',
           '{"~type": "Interp1Linear_v1", "x": 1, "f": [2]}', '{"~type": "Interp1Linear_v1", "x": ["a"], "f": [2]}', '{"~type": "Bag", "contents0": 7}', '{"~type": "Bag", "contents0": []}', '{"~type": "Bag", "contents0": {}}', '{"~type": "Bag", "keys": ["a", "b"], "contents0": {"~type": "Box", "contents": {"cols": 1, "vals": [1]}}}',
           '{"~type": "BSModelData_v1", "spot": "x", "vol": 1, "rate": 1, "div": 1}', '{"~type": "DiscountPWLF_v1", "knotDates": ["2020-01-01"], "leftVals": [1], "rightVals": [1], "base": {"~type": "Box", "contents": {"cols": 1, "vals": [1]}}}', '{"~type": "PseudoRSG_v1", "name": "MRG32", "seed": 1, "n_dim": 1, "precise": "yes"}']
    c.compare(rep, [{"op": "read", "json": t, "mut": [t], "rej": True, "want": []} for t in bad], "malformed text", lambda k, o: diff(dict(k), dict(o, orig=None)))
