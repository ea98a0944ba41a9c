from vlib import *
import random
TECHNIQUE = "TLA+ grammar as recogniser; TLC edits token sequences exhaustively and by random walks; verdicts and trees replayed into the parser"
NOTE = ("ScriptGrammar.tla defines acceptance and the statement tree of every token sequence; TLC enumerates every single edit (insert, remove, replace, cut) "
        "of a corpus of sentences, all short sequences and random multi-edit walks, and each text (in several spellings) must be accepted with that tree or rejected "
        "by the parser, built with address and bounds checking. Texts with characters outside the language must be rejected.")

CORPUS = [
    "", "x = 1", "x = y + k", "x PAYS 2.5", "x = - y", "x = y - 1 - .5", "x = y / 2.5 / 1", "x = y ^ 1 ^ 2.5", "x = - y ^ 2.5", "x = 1 + y * 2.5 ^ x", "x = ( 1 + y ) * 3.",
    "x = SPOT ( )", "x = SPOT ( ) ^ + - 1", "x = MAX ( 1 , y )", "x = MIN ( 1 , y , k )", "x = MAX ( 1 , y , k , x )", "x = LOG ( SQRT ( EXP ( 1 ) ) )",
    "x = MAX ( MIN ( 1 , y ) , ( 2.5 ) )", "x = DCF ( ACT / 365F , 2022 - 01 - 01 , 2023 - 01 - 01 ) * 1", "x = 1e2 _z = x", "spots = 1 end1 PAYS spots",
    "IF x > 1 THEN y = 1 END", "IF x < 1 THEN y = 1 ELSE y = 2.5 END", "IF x >= 1 ; .5 THEN y PAYS 1 END", "IF x <= 1 : .5 ; 1 THEN END", "IF x = y AND x != 1 OR y > 1 THEN x = 1 END",
    "IF x = 1 OR y = 1 AND k = 1 THEN ELSE END", "IF ( x = 1 OR y = 1 ) AND k = 1 THEN x = 1 END", "IF ( ( x > 1 ) ) THEN x = 1 END", "IF x * ( 1 ) > - 1 THEN x = 1 y = 1 ELSE x = 1 y PAYS 1 END",
    "IF x > 1 THEN IF y > 1 THEN x = 1 ELSE y = 1 END ELSE IF y < 1 THEN x = 1 END END", "x = 1 IF x > 1 THEN y = 1 END y = x",
    "IF MAX ( x , 1 ) > SPOT ( ) THEN y = 1 END", "x = y * - 1", "x = ( ( ( y ) ) )", "x = ( y ) ( k )", "x = ( y 1 )", "IF ( x ) > 1 THEN y = 1 END", "IF x THEN y = 1 END", "k = 1", "k PAYS 1",
    "x = y = 1", "x = MAX ( 1 )", "x = SPOT", "x = ^", "IF x > 1", "IF x > 1 y = 1 END", "x = 1x", "x = 1.2.3", "IF x > 1 ; THEN y = 1 END", "x = DCF ( ACT / 365F , 2022 - 01 - 01 )",
    "x = DCF ( ACT / 365F , 2022 - 01 - 01 , 2023 - 01 - 01 , 1 )", "IF x > 1 THEN y = 1 ELSE y = 1 ELSE y = 1 END", "( x ) = 1", "x PAYS", "x =",
]
# (date texts have a format of their own: the DCF sentences are not edited but listed)
DCFS = ["x = DCF ( ACT / 365F , 2022 - 01 - 01 , )", "x = DCF ( ACT / 365F , , 2023 - 01 - 01 )", "x = DCF ( )", "x = DCF", "x = DCF (", "x = DCF ( ACT / 365F )", "x = DCF ( ACT / 365F ,",
        "x = DCF ( ACT / 365F , 2022 - 01 - 01 , 2023 - 01 - 01", "x = 1 + DCF ( ACT / 365F , 2022 - 01 - 01 , 2023 - 01 - 01 ) y = 1", "x = DCF ( , 2022 - 01 - 01 , 2023 - 01 - 01 )",
        "x = DCF ( ACT / 365F , 2023 - 01 - 01 , 2022 - 01 - 01 )", "x = DCF ( ACT / 365F , 2022 - 01 - 01 , 2022 - 01 - 01 ) ^ 1", "x = DCF ( ACT / 365F , , 2022 - 01 - 01 , 2023 - 01 - 01 )",
        "x = DCF ( ACT / 365F , 2022 - 01 - 01 , 2023 - 01 - 01 , )", "DCF = 1"]
NODCF = [t for t in CORPUS if "DCF" not in t]
ALPHA = '{"x", "k", "1", "1x", "(", ")", "+", "-", "*", "^", ",", ";", "=", "!=", "<", ">=", "IF", "THEN", "ELSE", "END", "AND", "OR", "PAYS", "SPOT", "MAX", "LOG"}'
DCFVALUE = {("ACT/365F", "2022-01-01", "2023-01-01"): 1.0, ("ACT/365F", "2023-01-01", "2022-01-01"): -1.0,
            ("ACT/365F", "2022-01-01", "2022-01-01"): 0.0, ("ACT/365F", "2023-01-01", "2023-01-01"): 0.0}

def seq(txt): return "<<" + ", ".join('"%s"' % t for t in txt.split()) + ">>"
def texts(l): return "{" + ", ".join(seq(t) for t in l) + "}"

WORD = re.compile(r"[A-Za-z0-9_.]+$")
def tight(a, b):
    """can the two tokens be written without a space between them?"""
    if WORD.match(a) and WORD.match(b): return False
    return not (a in "<>=!" and b[0] in "=<>!")

def render(toks, style):
    """One spelling of a token sequence: spacing and letter case are free."""
    rnd = random.Random(style * 7919 + len(toks))
    out = ""
    for i, t in enumerate(toks):
        if i:
            if style == 0: sep = " "
            elif style == 1: sep = "" if tight(toks[i - 1], t) else " "
            else: sep = rnd.choice(["", " ", "\n", "\t", "  \r\n "]) if tight(toks[i - 1], t) else rnd.choice([" ", "\n", "\t", "  "])
            out += sep
        if style == 1: t = t.upper()
        elif style == 2: t = "".join(rnd.choice([ch.lower(), ch.upper()]) for ch in t)
        out += t
    return out if style != 2 else " \n" + out + "\t "

def norm(t, names=True):
    """Specification tree -> comparable form (numbers by value, names without case)."""
    if t[0] == "CONST": return ["CONST", float(t[1])]
    if t[0] in ("VAR", "KVAR"): return [t[0], t[1].lower()]
    if t[0] == "DCF": return ["CONST", DCFVALUE[tuple(t[1:])]]
    if t[0] in ("EQ", "GT", "GE"): return [t[0], float(t[1]), norm(t[2])]
    if t[0] in ("ASSIGN", "PAYS"): return [t[0], t[1].lower(), norm(t[2])]
    if t[0] == "IF": return ["IF", norm(t[1])] + [[norm(x) for x in b] for b in t[2:]]
    return [t[0]] + [norm(x) for x in t[1:]]

def eq(a, b):
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)): return abs(a - b) <= 1e-12 * max(1, abs(a))
    return a == b

def main(c):
    exe = build("scriptdrv", "asan")
    cases = []
    def take(rows, styles):
        seen = set()
        for r in rows:
            k = tuple(r["s"])
            if k in seen: continue
            seen.add(k)
            for st in styles:
                cases.append({"op": "parse", "text": render(r["s"], st), "consts": {"k": 3.0}, "ok": r["ok"], "t": [norm(x) for x in r["t"]]})
    base = c.mc("ScriptParse", {"Texts": texts(CORPUS + DCFS), "Alphabet": "{}", "MaxEdits": "0"}, ["Consumes", "Emitted"], name="corpus")
    acc = {" ".join(r["s"]): r["ok"] for r in base.emitted}
    bad = [t for i, t in enumerate(CORPUS) if acc[t] != (i < CORPUS.index("x = ( y ) ( k )"))]
    if bad: raise MachineError("the grammar misjudges %s" % bad)
    take(base.emitted, (0, 1, 2))
    r = c.mc("ScriptParse", {"Texts": texts(NODCF), "Alphabet": ALPHA if not c.quick else '{"x", "1", "(", ")", "-", ",", ";", "=", ">", "IF", "THEN", "END", "ELSE", "AND", "SPOT", "PAYS"}', "MaxEdits": "1"},
             ["Consumes", "Emitted"], name="edits", workers=8)
    take(r.emitted, (c.seed % 3,))
    # every short sequence after "x =" and inside a condition
    al = '{"y", "1", "+", "-", "^", "(", ")", ",", "MAX"}' if c.quick else '{"y", "1", "+", "-", "*", "^", "(", ")", ",", "MAX", "SPOT"}'
    n = 4 if c.quick else 5
    for name, pre, post, a, m in [("expr", ["x", "="], [], al, n), ("cond", ["IF"], ["THEN", "END"], '{"y", "(", ")", ">", "AND", ";", "1"}', n),
                                  ("stmt", [], [], '{"x", "=", "1", "IF", ">", "THEN", "ELSE", "END", "PAYS"}', n)]:
        defs = 'RECURSIVE SeqsUpTo(_)\nSeqsUpTo(k) == IF k = 0 THEN {<<>>} ELSE LET p == SeqsUpTo(k - 1) IN p \\cup {Append(q, a) : q \\in {z \\in p : Len(z) = k - 1}, a \\in %s}\n' % a
        r = c.mc("ScriptParse", {"Texts": "{%s \\o q \\o %s : q \\in SeqsUpTo(%d)}" % (seq(" ".join(pre)), seq(" ".join(post)), m), "Alphabet": "{}", "MaxEdits": "0"},
                 ["Consumes", "Emitted"], name="short_" + name, defs=defs, workers=8, heap="8g")
        take(r.emitted, (1,))
    r = c.mc("ScriptParse", {"Texts": texts(NODCF), "Alphabet": ALPHA, "MaxEdits": "12"}, ["Consumes", "Emitted"], name="walks", spec="RSpec",
             simulate=400 if c.quick else 8000, depth=12, seed=c.seed)
    take(r.emitted, (2,))
    c.cov["accepted"] = sum(1 for k in cases if k["ok"])
    c.cov["rejected"] = sum(1 for k in cases if not k["ok"])
    def diff(k, o):
        if k["ok"]:
            if "exc" in o: return (k["text"], "a sentence of the grammar was rejected: " + o["exc"])
            got = [norm_obs(x) for x in o["t"]]
            if not eq(k["t"], got): return (k["text"], "tree %s expected %s" % (json.dumps(got)[:300], json.dumps(k["t"])[:300]))
        elif "exc" not in o: return (k["text"], "not a sentence of the grammar but accepted as %s" % json.dumps(o["t"])[:300])
    def norm_obs(t):
        if isinstance(t, list): return [norm_obs(x) if isinstance(x, list) else (x.lower() if i == 1 and t[0] in ("VAR", "KVAR", "ASSIGN", "PAYS") and isinstance(x, str) else x) for i, x in enumerate(t)]
        return t
    rep = Replay(exe)
    c.compare(rep, cases, "texts", diff)
    # characters that belong to no token
    alien = []
    for ch in ["$", "!", "[", "]", "{", "\"", "&", "|", "%", "#", "@", "\\", "?", "~", "`", "'", "\x7f", "\x01"]:
        for t in ["x = 1 %s", "%s x = 1", "x = 1 %s y = 2", "x %s = 1", "x = y %s", "IF x > 1 %s THEN y = 1 END", "x = ( 1 %s )", "x = MAX(1,%s y)"]:
            alien.append({"op": "parse", "text": t % ch, "ok": False, "t": []})
    c.compare(rep, alien, "alien characters", diff)
    # nesting
    deep = []
    for d in (10, 100, 300):
        deep.append({"op": "parse", "text": "x = " + "(" * d + "1" + ")" * d, "ok": True, "t": [["ASSIGN", "x", ["CONST", 1.0]]]})
        deep.append({"op": "parse", "text": "x = " + "(" * d + "1" + ")" * (d - 1), "ok": False, "t": []})
        deep.append({"op": "parse", "text": "IF x > 1 THEN " * d + "END " * (d - 1), "ok": False, "t": []})
    c.compare(rep, deep, "nesting", diff)
