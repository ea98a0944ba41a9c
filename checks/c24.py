from vlib import *
TECHNIQUE = "TLA+ model of dictionaries as functions of condensed keys and of the grammar of their text (TLC), histories and texts replayed into Dictionary_ and the string comparisons"
NOTE = ("Dictionary.tla: every history of 2 operations over all keys of up to 2 characters from letters of both cases, blank, tab, underscore and a non-ASCII byte, simulated histories of 14; every token sequence up to length 6 as dictionary text; Spelling.tla: every pair of strings up to 3 characters. "
        "Values: numbers (tiny, huge, exact), dates, date-times to the second, strings, blanks. Limits: values that spell another kind and keys or text with the separators are outside; booleans come back as text.")
CH = [("a", "A", "a"), ("A", "A", "a"), ("b", "B", "b"), (" ", "", " "), ("_", "", "_"), ("\t", "", "\t"), ("\u00e9", "\u00e9", "\u00e9"), ("1", "1", "1")]
VALS = [{"t": "n", "v": 2}, {"t": "n", "v": 1.0 / 3}, {"t": "s", "v": "hello world"}, {"t": "d", "v": [2024, 2, 29]}, {"t": "dt", "v": [2023, 12, 31, 86399]}, {"t": "e"}, {"t": "n", "v": 1e-9}, {"t": "n", "v": 1e20}, {"t": "n", "v": -2147483648}, {"t": "n", "v": 123456.789012345},
        {"t": "dt", "v": [2023, 1, 1, 0]}, {"t": "s", "v": "Mixed_Case x"}, {"t": "n", "v": 0.000001}, {"t": "n", "v": 3e9}, {"t": "s", "v": " lead"}, {"t": "d", "v": [1999, 12, 31]}]
TOKS = [("a", "key", "A"), ("A_", "key", "A"), ("b", "key", "B"), ("1.5", "val", "1.5"), ("=", "=", ""), (";", ";", "")]
def esc(x): return '"%s"' % {"\t": "\\t"}.get(x, x)
def chars(cs): return "<<%s>>" % ", ".join("[c |-> %s, up |-> %s, fold |-> %s]" % (esc(a), esc(u), esc(f)) for a, u, f in cs)
def show(v):
    if v["t"] == "e": return "blank"
    if v["t"] == "n": return "n:%.17g" % v["v"]
    if v["t"] == "d": return "d:%d-%d-%d" % tuple(v["v"])
    if v["t"] == "dt": return "dt:%d-%d-%d+%d" % tuple(v["v"])
    return "s:" + v["v"]
def kval(text):
    if text == "": return "blank"
    try: return "n:%.17g" % float(text)
    except ValueError: return "s:" + text

def main(c):
    exe = build("dictdrv", "asan")
    rep = Replay(exe)
    tk = "<<%s>>" % ", ".join('[t |-> "%s", up |-> "%s"]' % (t, u) for _, t, u in TOKS)
    V = "1..%d" % len(VALS)
    base = {"Chars": chars(CH), "Toks": tk}
    runs = c.parallel([
        lambda: c.mc("Dictionary", dict(base, MaxLen="2", Vals=V, MaxOps="2", MaxToks="0"), ["Sound", "Emitted"], name="all histories of 2", workers=2),
        lambda: c.mc("Dictionary", dict(base, MaxLen="3", Vals=V, MaxOps="14", MaxToks="0"), ["Sound", "Emitted"], name="long histories", spec="RSpec", simulate=150 if c.quick else 4000, depth=16, seed=c.seed, workers=3),
        lambda: c.mc("Dictionary", dict(base, MaxLen="1", Vals=V, MaxOps="0", MaxToks="6" if c.quick else "7"), ["TEmitted"], name="all texts", spec="TSpec", workers=3),
        lambda: c.mc("Spelling", {"Chars": chars(CH[:7]), "MaxLen": "2" if c.quick else "3"}, ["Sound", "Emitted"], name="all spellings", workers=2)], 4)
    def hdiff(k, o):
        key = " ".join("%s%r" % (h["op"], h["key"]) for h in k["h"])
        if "exc" in o: return key, o["exc"]
        for i, (h, s) in enumerate(zip(k["h"], o["s"])):
            w = "operation %d: " % (i + 1)
            if s["n"] != h["n"]: return key, w + "size %s, expected %s" % (s["n"], h["n"])
            if h["op"] == "I":
                if s["ok"] != h["ok"]: return key, w + "insert %s, expected %s" % (s["ok"], h["ok"])
            elif s["has"] != h["ok"] or s["throws"] == h["ok"] or s["xthrows"] == h["ok"] or s["def"] != (1 if h["ok"] else 2) or s["opt"] != (show(VALS[h["r"] - 1]) if h["ok"] else "blank"): return key, w + "lookup gives %s" % s
        want = {"".join(e[0]): show(VALS[e[1] - 1]) for e in k["d"]}
        for what in ("d", "back"):
            if o[what] == "rejected": return key, "text %r is rejected" % o["text"]
            got = [tuple(e) for e in o[what]]
            if dict(got) != want or len(got) != len(want): return key, "%s: %s, expected %s" % (what, got, want)
        if o["text"].count("=") != len(want) or o["text"].count(";") != max(0, len(want) - 1): return key, "text %r" % o["text"]
    def hist(e): return {"op": "dict", "vals": VALS, "h": [dict(h, key="".join(CH[i - 1][0] for i in h["k"])) for h in e["h"]], "d": e["d"]}
    short = [hist(e) for e in runs[0].emitted]
    c.compare(rep, short[c.seed % 3::3] if c.quick else short, "all histories of 2", hdiff)
    c.compare(rep, [hist(e) for e in runs[1].emitted], "long histories", hdiff)
    def pdiff(k, o):
        if "exc" in o: return k["text"], o["exc"]
        if o["ok"] != k["ok"]: return k["text"], "accepted" if o["ok"] else "rejected"
        if k["ok"]:
            want = {p["k"]: kval("".join(TOKS[i - 1][0] for i in p["v"])) for p in k["p"]}
            if dict(map(tuple, o["d"])) != want: return k["text"], "%s, expected %s" % (o["d"], want)
    texts = [{"op": "parse", "text": "".join(TOKS[i - 1][0] for i in e["t"]), "ok": e["ok"], "p": e["p"]} for e in runs[2].emitted]
    c.compare(rep, texts[c.seed % 4::4] if c.quick else texts, "all texts", pdiff)
    def sdiff(k, o):
        key = "%r %r" % (k["s"], k["t"])
        if "exc" in o: return key, o["exc"]
        if o["same"] != k["same"] or (o["lt"] or o["gt"]) == k["same"] or (o["lt"] and o["gt"]): return key, "compares %s" % o
        if o["c"] != "".join(k["c"]): return key, "condensed %r, expected %r" % (o["c"], "".join(k["c"]))
        if k["pure"] and o["eqv"] != k["eqv"]: return key, "equivalent %s, expected %s" % (o["eqv"], k["eqv"])
    sp = [dict(e, op="spell", s="".join(CH[i - 1][0] for i in e["s"]), t="".join(CH[i - 1][0] for i in e["t"])) for e in runs[3].emitted]
    c.compare(rep, sp, "spellings", sdiff)
    def ndiff(k, o):
        if "exc" in o: return k["from"], o["exc"]
        if len(set(o["names"]) | {k["from"]}) != len(o["names"]) + 1: return k["from"], "names repeat"
    c.compare(rep, [{"op": "names", "from": f, "n": 1200} for f in ("", "a", "a9", "x0", "99", "b98", "8a")], "successive names", ndiff)
