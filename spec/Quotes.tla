------------------------------- MODULE Quotes -------------------------------
(* Options on a symmetric walk: from forward f, v fair unit steps are taken, and the option pays on where it ends.  All prices are exact: Price is 2^v times
   the price.  The relations between options that TLC checks here on every pair of neighbours - parity, monotonicity, convexity, symmetry, translation - hold
   for the normal and the lognormal formulas just as well (a walk in the level or in the logarithm), and are what behaviours of this module replay there. *)
EXTENDS Emit, Integers, FiniteSetsExt, SequencesExt, Randomization
CONSTANTS Fs, Ks, Vs, MaxV, Len0, R
VARIABLES f, k, v, b, hist
vars == <<f, k, v, b, hist>>
Call == 1
Put == 0
Choose(n, i) == FoldLeft(LAMBDA a, j : (a * (n - j + 1)) \div j, 1, [j \in 1..i |-> j])
Pos(x) == IF x > 0 THEN x ELSE 0
Payout(x, kk, bb) == IF bb = Call THEN Pos(x - kk) ELSE IF bb = Put THEN Pos(kk - x) ELSE Pos(x - kk) + Pos(kk - x)
Price(ff, kk, vv, bb) == FoldLeft(LAMBDA a, i : a + Choose(vv, i) * Payout(ff - vv + 2 * i, kk, bb), 0, [i \in 1..(vv + 1) |-> i - 1])
One(S) == IF R = 0 THEN S ELSE RandomSubset(1, S)
Quote == [f |-> f, k |-> k, v |-> v, b |-> b]
Init == f = 0 /\ k = 0 /\ v = 0 /\ b = Call /\ hist = <<>>
Start == /\ hist = <<>> /\ \E x \in One(Fs), y \in One(Ks), z \in One(Vs), t \in One(0..2) : f' = x /\ k' = y /\ v' = z /\ b' = t
         /\ hist' = <<[f |-> f', k |-> k', v |-> v', b |-> b', rel |-> "start"]>>
To(ff, kk, vv, bb, rel) ==
  /\ hist # <<>> /\ Len(hist) < Len0 /\ ff \in Fs /\ kk \in Ks /\ vv \in 0..MaxV
  /\ f' = ff /\ k' = kk /\ v' = vv /\ b' = bb /\ hist' = Append(hist, [f |-> ff, k |-> kk, v |-> vv, b |-> bb, rel |-> rel])
StrikeUp == To(f, k + 1, v, b, IF b = Call THEN "down" ELSE IF b = Put THEN "up" ELSE "either")
ForwardUp == To(f + 1, k, v, b, IF b = Call THEN "up" ELSE IF b = Put THEN "down" ELSE "either")
VolUp == To(f, k, v + 1, b, "up")
Shift == \E s \in {-1, 1} : To(f + s, k + s, v, b, "shift")
Mirror == b # 2 /\ To(k, f, v, 1 - b, "same")
Turn == b # 2 /\ To(f, k, v, 1 - b, "parity")
Both == b # 2 /\ To(f, k, v, 2, "both")
Split == b = 2 /\ \E t \in 0..1 : To(f, k, v, t, "part")
Still == To(f, k, 0, b, "worth")
Next == Start \/ StrikeUp \/ ForwardUp \/ VolUp \/ Shift \/ Mirror \/ Turn \/ Both \/ Split \/ Still
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
P(q) == Price(q.f, q.k, q.v, q.b)
Related ==
  Len(hist) < 2 \/
  LET a == hist[Len(hist) - 1] c == hist[Len(hist)] p == P(a) r == P(c) n == 2^a.v
  IN CASE c.rel = "up" /\ c.v = a.v -> p <= r /\ r - p <= n          \* by no more than the move
       [] c.rel = "up" -> 2 * p <= r
       [] c.rel = "down" -> r <= p /\ p - r <= n
       [] c.rel = "either" -> r - p <= n /\ p - r <= n
       [] c.rel \in {"shift", "same"} -> p = r
       [] c.rel = "parity" -> (IF a.b = Call THEN p - r ELSE r - p) = n * (a.f - a.k)
       [] c.rel = "both" -> r >= p
       [] c.rel = "part" -> r <= p
       [] c.rel = "worth" -> r = Payout(a.f, a.k, a.b) /\ r * n <= p
Convex == 2 * P(Quote) <= Price(f, k - 1, v, b) + Price(f, k + 1, v, b)
Sum == Price(f, k, v, 2) = Price(f, k, v, 0) + Price(f, k, v, 1)
Bounded == P(Quote) >= 2^v * Payout(f, k, b)
Emitted == Len(hist) = Len0 => Emit([h |-> hist])
=============================================================================
