"""Script programs of the specification (ScriptEval.tla) as texts, and their generation with TLC."""
from vlib import *

PREC = {"ADD": 1, "SUB": 1, "MUL": 2, "DIV": 2, "POW": 3}
SYM = {"ADD": "+", "SUB": "-", "MUL": "*", "DIV": "/", "POW": "^"}

def expr(t, p=0):
    """Text of an expression, with parentheses only where its tree needs them (p: precedence of the context)."""
    k = t[0]
    if k == "CONST": return t[1] if not t[1].startswith("-") else "(" + t[1] + ")"
    if k in ("VAR", "KVAR"): return t[1]
    if k == "SPOT": return "SPOT()"
    if k in ("MAX", "MIN") and t[1][0] == k and len(str(t)) % 4:       # MAX(a, b, c) is MAX(MAX(a, b), c)
        return expr(t[1])[:-1] + ", " + expr(t[2]) + ")"
    if k in ("MAX", "MIN"): return "%s(%s, %s)" % (k, expr(t[1]), expr(t[2]))
    if k in ("LOG", "EXP", "SQRT"): return "%s(%s)" % (k, expr(t[1]))
    if k in ("UMINUS", "UPLUS"): return ("-" if k == "UMINUS" else "+") + " " + expr(t[1], 4)
    q = PREC[k]
    s = "%s %s %s" % (expr(t[1], q), SYM[k], expr(t[2], q + 1))
    return "(" + s + ")" if q < p else s

def cond(c, p=0):
    if c[0] == "CMP":
        l = expr(c[2])
        if l.startswith("("): l = "+ " + l       # a condition starting with "(" is a parenthesised condition
        return "%s %s %s" % (l, c[1], expr(c[3])) + ("" if c[4] == "" else " ; " + c[4])
    q = 2 if c[0] == "AND" else 1
    s = "%s %s %s" % (cond(c[1], q), c[0], cond(c[2], q + 1))
    return "(" + s + ")" if q < p else s

def stmt(t):
    if t[0] == "ASSIGN": return "%s = %s" % (t[1], expr(t[2]))
    if t[0] == "PAYS": return "%s PAYS %s" % (t[1], expr(t[2]))
    s = "IF %s THEN %s" % (cond(t[1]), " ".join(stmt(x) for x in t[2]))
    if len(t) == 4: s += " ELSE " + " ".join(stmt(x) for x in t[3])
    return s + " END"

# market paths: spot and numeraire at each event, [numerator, denominator]
PATHS = [[[1, 1, 1, 1], [2, 1, 2, 1], [4, 1, 4, 1]], [[5, 2, 1, 1], [1, 2, 1, 2], [3, 1, 1, 1]], [[9, 4, 2, 1], [33, 16, 1, 1], [1, 1, 2, 1]],
         [[8, 1, 1, 4], [1, 4, 1, 1], [2, 1, 1, 2]], [[10, 1, 4, 1], [10, 1, 2, 1], [1, 8, 1, 1]], [[1, 4, 1, 1], [3, 1, 1, 1], [1, 2, 2, 1]]]
def tla_paths():
    return "<<" + ", ".join("<<" + ", ".join("[spot |-> Mk(%d, %d, 0), num |-> Mk(%d, %d, 0)]" % tuple(s) for s in p) + ">>" for p in PATHS) + ">>"
NUM_PATHS = [[[s[0] / s[1], s[2] / s[3]] for s in p] for p in PATHS]

DEFS = '''
V(v) == <<"VAR", v>>
C(t) == <<"CONST", t>>
A(v, e) == <<"ASSIGN", v, e>>
P(v, e) == <<"PAYS", v, e>>
Lv == {V("x"), V("y"), <<"KVAR", "k">>, <<"SPOT">>, C("1"), C("2"), C(".5"), C("0")}
Un == {"UMINUS", "UPLUS", "LOG", "EXP", "SQRT"}
Bin == {"ADD", "SUB", "MUL", "DIV", "POW", "MAX", "MIN"}
E1 == Lv \\cup {<<u, a>> : u \\in Un, a \\in Lv} \\cup {<<b, a, c>> : b \\in Bin, a \\in Lv, c \\in Lv}
S1 == {V("y"), <<"SPOT">>, C("2"), <<"KVAR", "k">>}
F1 == {<<"UMINUS", a>> : a \\in S1} \\cup {<<b, a, c>> : b \\in Bin, a \\in S1, c \\in S1}
E2 == {<<b, a, c>> : b \\in Bin, a \\in F1, c \\in S1} \\cup {<<b, c, a>> : b \\in Bin, a \\in F1, c \\in S1}
      \\cup {<<u, a>> : u \\in Un, a \\in F1}
Ops == {"=", "!=", "<", ">", "<=", ">="}
CL == {<<"CMP", o, a, b, "">> : o \\in Ops, a \\in {V("x"), V("y"), <<"SPOT">>, <<"KVAR", "k">>, C("1"), C("2")}, b \\in {V("y"), <<"SPOT">>, C("1"), C("2"), <<"KVAR", "k">>}}
CL2 == {<<"CMP", o, a, b, ep>> : o \\in Ops, a \\in {V("x"), V("y"), <<"SPOT">>}, b \\in {C("2"), <<"SPOT">>, C("1")}, ep \\in {"", "1", "0.25", "0"}}
CS == {<<"CMP", "<", <<"SPOT">>, C("2"), "">>, <<"CMP", ">=", V("y"), C("2"), "">>, <<"CMP", "=", V("x"), C("1"), "1">>, <<"CMP", "!=", <<"SPOT">>, <<"KVAR", "k">>, "">>,
       <<"CMP", ">", <<"ADD", V("x"), V("y")>>, <<"SPOT">>, "0.25">>, <<"CMP", "=", C("1"), C("2"), "">>, <<"CMP", ">", C("2"), C("1"), "">>, <<"CMP", ">=", C("1"), C("1"), "">>}
Cc == CL \\cup CL2 \\cup {<<o, a, b>> : o \\in {"AND", "OR"}, a \\in CS, b \\in CS}
      \\cup {<<o, <<q, a, b>>, c>> : o \\in {"AND", "OR"}, q \\in {"AND", "OR"}, a \\in CS, b \\in CS, c \\in CS}
      \\cup {<<o, c, <<q, a, b>>>> : o \\in {"AND", "OR"}, q \\in {"AND", "OR"}, a \\in CS, b \\in CS, c \\in CS}
T1 == <<A("x", C("1")), P("y", <<"SPOT">>)>>
T2 == <<A("y", C("2"))>>
Ifs(S) == {<<"IF", c, T1, T2>> : c \\in S} \\cup {<<"IF", c, T2>> : c \\in S} \\cup {<<"IF", c, <<>>, T1>> : c \\in S}
Nest(S) == {<<"IF", a, <<A("x", C("1")), <<"IF", b, T2, T1>>>>, T2>> : a \\in S, b \\in S}
           \\cup {<<"IF", a, T2, <<<<"IF", b, T1>>, A("x", <<"ADD", V("x"), V("y")>>)>>>> : a \\in S, b \\in S}
           \\cup {<<"IF", a, <<<<"IF", b, T1>>>>>> : a \\in S, b \\in S}
Mix == {A("x", C("1")), A("x", <<"SPOT">>), A("y", <<"ADD", V("x"), C("1")>>), A("x", <<"MUL", V("y"), C("0")>>), P("x", C("2")), P("y", <<"MAX", <<"SPOT">>, V("x")>>),
        <<"IF", <<"CMP", ">", V("x"), C("1"), "">>, <<A("y", C("2"))>>, <<A("y", C("0"))>>>>,
        <<"IF", <<"CMP", ">", <<"SPOT">>, C("2"), "">>, <<A("x", C("1"))>>>>,
        <<"IF", <<"CMP", "=", V("y"), C("2"), "">>, <<A("x", <<"UMINUS", V("x")>>)>>, <<P("x", V("k"))>>>>,
        A("x", <<"DIV", C("1"), V("y")>>), A("y", <<"LOG", <<"SPOT">>>>),
        <<"IF", <<"CMP", "<=", <<"SPOT">>, V("x"), "1">>, <<A("x", <<"SPOT">>), <<"IF", <<"CMP", "!=", V("y"), C("0"), "">>, <<A("y", C("1"))>>, <<P("y", C("1"))>>>>>>, <<A("x", C("0"))>>>>}
D1 == {<<"IF", <<"CMP", ">", <<"SPOT">>, C("2"), "">>, <<A("y", a)>>, <<A("y", b)>>>> : a \\in {C("0"), C("1"), C("2"), C("-1"), <<"SPOT">>}, b \\in {C("0"), C("1"), C(".5"), C("-1")}}
      \\cup {A("y", <<"SPOT">>), A("y", <<"MAX", <<"SPOT">>, C("2")>>), A("y", <<"MIN", <<"SPOT">>, C("2")>>), A("y", <<"LOG", <<"SPOT">>>>), A("y", <<"SUB", <<"SPOT">>, C("2")>>), P("y", C("1")),
            A("y", <<"UMINUS", <<"SPOT">>>>), A("y", C("2"))}
D2 == {A("x", e) : e \\in {<<u, V("y")>> : u \\in Un} \\cup {<<b, V("y"), a>> : b \\in Bin, a \\in {C("2"), C(".5"), C("-1"), <<"SPOT">>, V("y")}}
                                 \\cup {<<b, a, V("y")>> : b \\in Bin, a \\in {C("2"), C("-1"), <<"SPOT">>}}}
D3 == {<<"IF", <<"CMP", o, V("x"), b, "">>, <<A("y", C("10"))>>, <<A("y", C("8"))>>>> : o \\in Ops, b \\in {C("0"), C("1"), C(".5"), C("-1"), <<"SPOT">>}}
D4 == {<<"IF", <<o1, <<"CMP", o2, V("x"), C("1"), "">>, <<"CMP", o3, V("y"), C("1"), "">>>>, <<A("y", C("10"))>>, <<A("y", C("8"))>>>> : o1 \\in {"AND", "OR"}, o2 \\in Ops, o3 \\in Ops}
Third(S) == LET q == SetToSeq(S) IN {q[i] : i \\in {i \\in 1..Len(q) : i % 3 = SEED % 3}}
'''.replace('P("x", V("k"))', 'P("x", <<"KVAR", "k">>)')

def programs(c, fuzzy, domains=False):
    """Programs with their meaning on PATHS; a list of replay cases."""
    todo = []
    base = {"Vars": '{"x", "y"}', "KTokens": '[k |-> "3"]', "Paths": tla_paths(), "Eps": "Q(1)", "Leaves": "Lv", "CondLeaves": "CL2", "Divisors": '{C("2"), C(".5"), C("4"), <<"SPOT">>, <<"MAX", V("x"), C("1")>>, <<"SUB", V("y"), C("4")>>, V("y")}', "FuzzyOn": "TRUE" if fuzzy else "FALSE", "DomOn": "TRUE" if domains else "FALSE"}
    inv = ["TypeOk", "Emitted"] + (["DomSound"] if domains else [])
    def suite(name, pasts, stmts, n, ev, **kw):
        todo.append(lambda: c.mc("ScriptEval", dict(base, Pasts=pasts, Stmts0=stmts, MaxStmts=str(n), MaxEvents=str(ev)), inv, name=name, defs=DEFS.replace("SEED", str(c.seed)), workers=4, heap="4g", **kw).emitted)
    p0 = '{<<A("y", C("2"))>>}'
    p2 = '{<<>>, <<P("y", C("1"))>>, <<A("y", C("2"))>>, <<A("x", C("1")), P("y", C("1")), <<"IF", <<"CMP", ">", V("x"), C("0"), "">>, <<A("y", C(".5"))>>, <<A("y", C("4"))>>>>>>}'
    suite("expressions", p0, '<<{A("x", e) : e \\in E1 \\cup E2}>>', 1, 1)
    suite("payments", p0, '<<{P("y", e) : e \\in E1}>>', 1, 1)
    suite("conditions", p0, "<<Ifs(%s)>>" % ("CL \\cup CL2" if c.quick else "Cc"), 1, 1)
    suite("nested", p0, "<<Nest(%s)>>" % ("CS" if c.quick else "CS \\cup Third(CL2)"), 1, 1)
    suite("sequences", p2, "<<Mix>>", 3 if c.quick else 4, 2)
    if domains:
        suite("domains", "{<<>>}", "<<D1, D2, D3>>" if not c.quick else "<<Third(D1), D2, Third(D3)>>", 3, 1)
        suite("domains2", "{<<>>}", "<<D1, D2, D4>>" if not c.quick else '<<D1, {A("x", V("y")), A("x", <<"SUB", C("2"), V("y")>>)}, D4>>', 3, 1)
    suite("random", p2, "<<{}>>", 7, 3, spec="RSpec", simulate=400 if c.quick else 12000, depth=8, seed=c.seed)
    rows = [r for rs in c.parallel(todo) for r in rs]
    cases, seen = [], set()
    for r in rows:
        ev = [" ".join(stmt(s) for s in e) for e in r["prog"]]
        past = [" ".join(stmt(s) for s in r["past"])] if r["past"] else []
        key = (tuple(past), tuple(ev))
        if key in seen: continue
        seen.add(key)
        cases.append({"op": "eval", "consts": {"k": "3"}, "past": past, "events": ev, "paths": NUM_PATHS, "eps": 1.0,
                      "dz": r["dz"], "ok": r["ok"], "fin": r["fin"], "ffin": r["ffin"], "env": r["env"], "fok": r["fok"], "fenv": r["fenv"]})
    return cases

def text(k): return " | ".join(["[past] " + t for t in k["past"]] + k["events"])

def want(k, fuzzy):
    """expected[path][var] -> number or None (not specified here)"""
    ok, env = (k["fok"], k["fenv"]) if fuzzy else (k["ok"], k["env"])
    return [{v: (x[0] / x[1] if o and x else None) for v, x in e.items()} for o, e in zip(ok, env)]

def against_spec(k, o, mode, fuzzy=False, tol=1e-12):
    """Difference between an observed mode and the specification, or None."""
    m = o[mode]
    if "exc" in m: return "%s: rejected: %s" % (mode, m["exc"])
    for p, (w, g) in enumerate(zip(want(k, fuzzy), m["v"])):
        for v, x in w.items():
            if x is None or v not in g: continue
            if not isinstance(g[v], (int, float)) or abs(g[v] - x) > tol * max(1.0, abs(x)):
                return "%s: path %d: %s = %s, expected %s" % (mode, p, v, g[v], x)
    # (folded constants of undefined value, LOG(-1) say, may lead to other undefined results)
    if "note" in m and not (m["note"].startswith("preparing") and not all(k["ffin" if fuzzy else "fin"])): return "%s: %s" % (mode, m["note"])

def alike(o, a, b, k, tol=1e-12, exact_only=True):
    """Difference between two modes on the paths where the specification decides every condition."""
    if "exc" in o[a] or "exc" in o[b]:
        if ("exc" in o[a]) != ("exc" in o[b]): return "%s and %s: only one is rejected: %s" % (a, b, o[a].get("exc") or o[b].get("exc"))
        return None
    for p, (x, y) in enumerate(zip(o[a]["v"], o[b]["v"])):
        if exact_only and not k["ok"][p]: continue
        for v in x:
            if v not in y: return "%s and %s: variable %s only in one" % (a, b, v)
            if x[v] == y[v] or not k["fin"][p]: continue
            if isinstance(x[v], str) or isinstance(y[v], str) or abs(x[v] - y[v]) > tol * max(1.0, abs(x[v])):
                return "path %d: %s = %s by %s but %s by %s" % (p, v, x[v], a, y[v], b)
