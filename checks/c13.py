from scriptlib import *
import datetime, zlib
TECHNIQUE = "TLA+ product-building machine: event tables grown row by row by TLC, expanded by the specification and replayed into the code"
NOTE = ("ScriptProduct.tla registers constants and macros, lays schedule rows on the calendar, joins same-date rows and splits at the evaluation date. Every table TLC reaches is built by the real "
        "code in varied letter case and parameter order; dates, statement trees (against the parser applied to the specified expansion), variable order, history values, timeline and payoff "
        "must agree, after any sequence of preparations, and malformed tables must be rejected.")

def iso(n): return (datetime.date(1899, 12, 30) + datetime.timedelta(days=n)).isoformat()
def cased(s, salt): return [s.lower(), s.upper(), s.capitalize()][zlib.crc32((s + salt).encode()) % 3]

class Text:
    """Statements as text; names of macros and constants in varying case."""
    def __init__(self, salt): self.salt, self.n = salt, 0
    def name(self, s):
        self.n += 1
        return cased(s, self.salt + str(self.n))
    def expr(self, t, p=0):
        if t[0] == "MAC": return self.name(t[1])
        if t[0] == "VAR" and t[1] == "kk": return self.name("kk")
        if t[0] == "DCF": return "DCF(%s, %s, %s)" % (t[1], self.name("PeriodBegin"), self.name("PeriodEnd"))
        if t[0] == "DCFX": return "DCF(%s, %s, %s)" % (t[1], iso(t[2]), iso(t[3]))
        if t[0] in PREC: return "(%s %s %s)" % (self.expr(t[1]), SYM[t[0]], self.expr(t[2]))
        return expr(t)
    def cond(self, c): return "%s %s %s" % (self.expr(c[2]) if c[2][0] not in PREC else "+ " + self.expr(c[2]), c[1], self.expr(c[3]))
    def stmt(self, t):
        if t[0] == "MST": return self.name(t[1])
        if t[0] == "ASSIGN": return "%s = %s" % (t[1], self.expr(t[2]))
        if t[0] == "PAYS": return "%s PAYS %s" % (t[1], self.expr(t[2]))
        s = "IF %s THEN %s" % (self.cond(t[1]), " ".join(self.stmt(x) for x in t[2]))
        if len(t) == 4: s += " ELSE " + " ".join(self.stmt(x) for x in t[3])
        return s + " END"
    def all(self, ts): return " ".join(self.stmt(x) for x in ts)

def inc_text(i): return "".join("%d%s" % (p["n"], p["u"]) if p["k"] == "step" else p["u"] for p in i)
def value(p): return iso(p[1]) if p[0] in ("START", "END") else inc_text(p[1]) if p[0] == "FREQ" else p[1]

DEFS = '''
V(v) == <<"VAR", v>>
C(t) == <<"CONST", t>>
A(v, e) == <<"ASSIGN", v, e>>
P(v, e) == <<"PAYS", v, e>>
St(k, u) == [k |-> "step", n |-> k, u |-> u, c |-> <<>>]
D0 == 45366
XaDef == [h |-> {k \\in (D0 - 40)..(D0 + 400) : k % 7 \\notin {0, 1} /\\ k % 9 = 2}, w |-> {k \\in (D0 - 40)..(D0 + 400) : k % 7 = 0 /\\ k % 5 = 0}]
s1 == <<A("x", <<"ADD", <<"MUL", V("x"), C("2")>>, C("1")>>)>>
s2 == <<A("y", <<"ADD", V("x"), V("kk")>>)>>
s3 == <<P("pv", <<"MUL", <<"MAC", "mac1">>, C("2")>>)>>
s4 == <<<<"MST", "mac3">>, A("y", <<"MUL", V("y"), C("2")>>)>>
s5 == <<P("pv", <<"DCF", "ACT_365F">>)>>
s6 == <<<<"IF", <<"CMP", ">", V("x"), <<"MAC", "mac2">>, "">>, <<A("z", C("1"))>>, <<A("z", <<"ADD", V("z"), C("3")>>)>>>>>>
Pr(o, f, c, b, i) == LET m == [s |-> <<"START", D0>>, e |-> <<"END", D0 + 75>>, f |-> <<"FREQ", f>>, c |-> <<"CALENDAR", c>>, b |-> <<"BizRule", b>>, i |-> <<"FIXING", i>>]
                     IN [k \\in 1..Len(o) |-> m[o[k]]]
Sc == {<<Pr(<<"s", "e", "f">>, <<St(1, "M")>>, "", "", ""), s1>>, <<Pr(<<"f", "i", "e", "s">>, <<St(1, "M")>>, "", "", "BEGIN"), s5>>,
       <<Pr(<<"i", "s", "c", "e", "f", "b">>, <<St(2, "W")>>, "XA", "Following", "END"), s5>>, <<Pr(<<"b", "c", "s", "i", "f", "e">>, <<St(20, "CD")>>, "XA", "Following", "BEGIN"), s6>>,
       <<Pr(<<"s", "e", "f", "b", "i">>, <<St(1, "M")>>, "", "Unadjusted", "END"), s2 \\o s5>>, <<Pr(<<"e", "f", "s", "i">>, <<[k |-> "special", u |-> "IMM1"]>>, "", "", "BEGIN"), s3>>,
       <<Pr(<<"s", "e">>, <<>>, "", "", ""), s1>>, <<Pr(<<"s", "f">>, <<St(1, "M")>>, "", "", ""), s1>>, <<Pr(<<"e", "f", "i">>, <<St(1, "M")>>, "", "", "END"), s1>>}
Dd == {<<D0 - 10, s1>>, <<D0, s1>>, <<D0, s2>>, <<D0 - 10, s6>>, <<D0 + 31, s4>>, <<D0 + 75, s3>>, <<D0 - 10, s4 \\o s3>>, <<D0 + 31, s2>>}
Cs == {<<"kk", "2">>, <<"KK", "10">>, <<"mac1", "3">>}
Mm == {<<"mac1", V("x")>>, <<"MAC1", <<"ADD", V("x"), C("1")>>>>, <<"mac2", <<"ADD", V("y"), C("2")>>>>, <<"mac3", <<A("x", C("3")), A("z", V("x"))>>>>, <<"Kk", V("w")>>}
Bd == {"START:", "START: 2024-03-15 END:", "FREQ: 1M START: 2024-03-15 END: 2024-06", "START: 2024-03-15 END: 2024-06-15 FREQ:", "START: 2024-03-15 END: 2024-06-15 FREQ: 1M FOO: 3",
       "START: 2024-03-15 END: 2024-06-15 FREQ: 1M FIXING: MIDDLE", "START 2024-03-15 END: 2024-06-15 FREQ: 1M", "START: 2024-03-15 END: 2024-06-15 FREQ: 1M 3",
       "START: 2024-03-15 END: 2024-06-15 FREQ: 0M", "START: 2024-03-15 END: 2024-06-15 FREQ: 1M BizRule: Sometimes", "START: 2024-03-15 END: 2024-06-15 FREQ: 1M FIXING:"}
'''
PREPS = [[[False, True, False]], [[False, False, False], [False, False, False]], [[True, False, False], [True, False, False]], [[False, True, True], [False, True, True], [False, True, False]],
         [[False, False, True], [True, False, False], [False, True, True]]]

def main(c):
    exe = build("scriptdrv", "asan")
    base = {"Vars": '{"x", "y", "z", "w", "pv", "kk", "mac1", "mac2", "mac3"}', "KTokens": '[k |-> "3"]', "Consts": "Cs", "Macros": "Mm", "Dated": "Dd", "Scheds": "Sc", "Bad": "Bd",
            "EvalDates": "{D0 - 20, D0, D0 + 31, D0 + 200}", "Payoffs": '{"", "x", "pv"}', "Xa": "XaDef"}
    inv = ["Ordered", "Kept", "Emitted"]
    t = [lambda: c.mc("ScriptProduct", dict(base, MaxRows="2"), inv, name="tables2", defs=DEFS, workers=4),
         lambda: c.mc("ScriptProduct", dict(base, MaxRows="7"), inv, name="random", defs=DEFS, workers=4, simulate=1500 if c.quick else 40000, depth=8, seed=c.seed)]
    if not c.quick: t.append(lambda: c.mc("ScriptProduct", dict(base, MaxRows="3"), inv, name="tables3", defs=DEFS, workers=4, heap="6g"))
    rows = [r for x in c.parallel(t) for r in x.emitted]
    holidays = [k for k in range(45326, 45767) if k % 7 not in (0, 1) and k % 9 == 2]
    weekends = [k for k in range(45326, 45767) if k % 7 == 0 and k % 5 == 0]
    cases, seen = [], set()
    for n, r in enumerate(rows):
        tb, cs = [], {}
        T = Text(str(n))
        for q in r["rows"]:
            if q[0] == "const": tb.append([q[1], q[2]]); cs.setdefault(q[1], float(q[2]))
            elif q[0] == "macro": tb.append([q[1], Text("b").all(q[2]) if q[2] and isinstance(q[2][0], list) else Text("b").expr(q[2])])
            elif q[0] == "date": tb.append([q[1], T.all(q[2])])
            elif q[0] == "bad": tb.append([q[1], "x = 1"])
            else: tb.append([" ".join("%s: %s" % (cased(p[0], str(n)), value(p)) for p in q[1]), T.all(q[2])])
        text = [Text("e").all(e["st"]) for e in r["events"]]
        key = json.dumps([tb, r["today"], r["payoff"]])
        if key in seen: continue
        seen.add(key)
        # rows may be unparsable in isolation when the table is rejected: then no reference is needed
        cases.append({"op": "product", "table": tb, "today": r["today"], "payoff": r["payoff"], "ok": r["ok"], "consts": cs if r["ok"] else {}, "expect": text if r["ok"] else [],
                      "centers": [{"c": "XA", "h": holidays, "w": weekends}], "preps": PREPS[n % len(PREPS)],
                      "dates": [e["d"] for e in r["events"]], "vars": r["vars"], "init": r["init"], "pay": r["pay"]})
    def diff(k, o):
        key = json.dumps([k["table"], k["today"], k["payoff"]])
        if not k["ok"]: return None if "rejected" in o else (key, "the table should be rejected")
        if "exc" in o or "rejected" in o: return (key, "rejected: %s" % (o.get("exc") or o["rejected"]))
        n = sum(d < k["today"] for d in k["dates"])
        if o["past"] != k["dates"][:n] or o["future"] != k["dates"][n:]: return (key, "event dates %s | %s, expected %s | %s" % (o["past"], o["future"], k["dates"][:n], k["dates"][n:]))
        if json.dumps(o["pastTrees"] + o["futureTrees"]).lower() != json.dumps(o["reference"]).lower(): return (key, "statements %s, expected %s" % (json.dumps(o["pastTrees"] + o["futureTrees"]), json.dumps(k["expect"])))
        for i, p in enumerate(o["preps"]):
            if "exc" in p: return (key, "preparation %d fails: %s" % (i, p["exc"]))
            if [v.lower() for v in p["vars"]] != [v.lower() for v in k["vars"]]: return (key, "variables %s, expected %s" % (p["vars"], k["vars"]))
            for v, x, w in zip(p["vars"], p["init"], k["init"]):
                if w and x != w[0] / w[1]: return (key, "after history %s = %s, expected %s (preparation %d)" % (v, x, w[0] / w[1], i))
            if p["days"] != [d - k["today"] for d in k["dates"][n:]] or p["def"] != len(k["dates"]) - n: return (key, "timeline in days %s (preparation %d)" % (p["days"], i))
            if p["pay"] != k["pay"]: return (key, "payoff variable %s, expected %s (preparation %d)" % (p["pay"], k["pay"], i))
    c.cov["rejected_tables"] = sum(not k["ok"] for k in cases)
    c.compare(Replay(exe), cases, "tables", diff)
