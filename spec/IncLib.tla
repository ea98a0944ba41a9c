------------------------------- MODULE IncLib -------------------------------
(* Date increments.  An increment is a sequence of parts; a part is either
   [k |-> "step", n, u, c] (n units u, then rolled when it names centers c) or [k |-> "special", u].
   H maps center names to data. *)
EXTENDS HolLib, TLC

StepUnits == [Y |-> "Y", YEAR |-> "Y", YEARS |-> "Y", M |-> "M", MONTH |-> "M", MONTHS |-> "M", W |-> "W", WEEK |-> "W", WEEKS |-> "W",
              BD |-> "BD", BUS_DAY |-> "BD", BUSINESS_DAY |-> "BD", CD |-> "CD", CAL_DAY |-> "CD", CALENDAR_DAY |-> "CD"]
Specials == [IMM |-> "IMM", IMM3 |-> "IMM", IMM_QUARTERLY |-> "IMM", IMM1 |-> "IMM1", IMM_MONTHLY |-> "IMM1",
             CDS |-> "CDS", CDS3 |-> "CDS", CDS_QUARTERLY |-> "CDS", EOM |-> "EOM"]

\* third Wednesday
ThirdWed(y, m) == CHOOSE n \in Serial(y, m, 15)..Serial(y, m, 21) : Dow(n) = 3
RollDays(u, y, m) == CASE u = "IMM1" -> ThirdWed(y, m)
                       [] u = "IMM" -> IF m % 3 = 0 THEN ThirdWed(y, m) ELSE 0
                       [] u = "CDS" -> IF m % 3 = 0 THEN Serial(y, m, 20) ELSE 0
\* all roll days in the five months around a date
Around(n, u) == LET x == Civil(n) IN
    {r \in {LET t == AddMonths(Dt(x.y, x.m, 1), k, FALSE) IN RollDays(u, t.y, t.m) : k \in -4..4} : r > 0}
NextSpecial(u, n) == IF u = "EOM" THEN SerialOf(EndOfMonth(Civil(n)))
                     ELSE Min({r \in Around(n, u) : r > n})
PrevSpecial(u, n) == IF u = "EOM" THEN SerialOf(Dt(Civil(n).y, Civil(n).m, 1)) - 1
                     ELSE Max({r \in Around(n, u) : r < n})

RECURSIVE BusSteps(_, _, _, _)
BusSteps(cs, n, k, fwd) == IF k = 0 THEN n
                           ELSE BusSteps(cs, IF fwd THEN NextBus(cs, n + 1) ELSE PrevBus(cs, n - 1), k - 1, fwd)
StepPart(cs, p, n, fwd) ==
    LET s == IF fwd THEN 1 ELSE -1
        u == StepUnits[p.u]
        r == CASE u = "Y" -> SerialOf(AddMonths(Civil(n), 12 * p.n * s, FALSE))
               [] u = "M" -> SerialOf(AddMonths(Civil(n), p.n * s, FALSE))
               [] u = "W" -> n + 7 * p.n * s
               [] u = "CD" -> n + p.n * s
               [] u = "BD" -> BusSteps(cs, n, p.n, fwd)
    IN IF cs = {} THEN r ELSE IF fwd THEN NextBus(cs, r) ELSE PrevBus(cs, r)
ApplyPart(H, p, n, fwd) ==
    IF p.k = "special" THEN (IF fwd THEN NextSpecial(Specials[p.u], n) ELSE PrevSpecial(Specials[p.u], n))
    ELSE StepPart({H[p.c[i]] : i \in 1..Len(p.c)}, p, n, fwd)
RECURSIVE ApplyInc(_, _, _, _)
ApplyInc(H, inc, n, fwd) == IF inc = <<>> THEN n ELSE ApplyInc(H, Tail(inc), ApplyPart(H, Head(inc), n, fwd), fwd)

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
PartText(p) == IF p.k = "special" THEN p.u
               ELSE ToString(p.n) \o p.u \o (IF p.c = <<>> THEN "" ELSE ";" \o Join(p.c, " "))
IncText(inc) == Join([i \in 1..Len(inc) |-> PartText(inc[i])], "&")
=============================================================================
