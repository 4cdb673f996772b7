------------------------------ MODULE CheckC22 ------------------------------
(* Calendar, phases.                                                         *)
EXTENDS Keplerian, Json
CONSTANTS Thorough, Years
VARIABLES c

(* --- the proleptic Gregorian calendar ------------------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* Julian day number of the noon of a date
JDN(y, m, d) ==
  LET a == (14 - m) \div 12  yy == y + 4800 - a  mm == m + 12 * a - 3
  IN d + (153 * mm + 2) \div 5 + 365 * yy + yy \div 4 - yy \div 100 + yy \div 400 - 32045
Following(y, m, d) == IF d < MonthLen(y, m) THEN <<y, m, d + 1>>
                      ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
Clock == {<<0, 0>>, <<43200, 0>>, <<43199, 999999>>, <<86399, 999999>>, <<1, 500000>>,
          <<3661, 250000>>, <<60000, 123456>>, <<43200, 1>>, <<21600, 0>>}
Days(y, m) == {1, 2, 15, MonthLen(y, m) - 1, MonthLen(y, m)}
Dates == UNION {UNION {{[kind |-> "date", y |-> y, m |-> m, d |-> d, s |-> k[1], us |-> k[2]] :
                d \in Days(y, m), k \in Clock} : m \in 1..12} : y \in Years}

(* --- phases on an exact lattice -------------------------------------------- *)
Pers == {1, 2, 3, 7, 16, 100}
Phases == [kind : {"phase"}, p : Pers, t0 : {-5, 0, 3, 40}, d : (-16..16) \cup {99, 100, -100, 1000, 2001}]
Mod1(a, b) == ((a % b) + b) % b
PhaseNum(x) == Mod1(x.d, x.p)

(* --- which event a set of parameters is folded on -------------------------- *)
Sets == {<<b, n>> : b \in Bases \cup {PrintBasis}, n \in 1..3}
Folds == [kind : {"fold"}, set : Sets, times : {"zero", "jd"}]
RefTerm(b, i) == IF Has(b, "tc") THEN P("tc", i) ELSE P("tp", i)

Init == c \in Dates \/ c \in Phases \/ c \in Folds
Next == UNCHANGED c
DateFact == c.kind = "date" =>
  LET f == Following(c.y, c.m, c.d)
  IN JDN(f[1], f[2], f[3]) = JDN(c.y, c.m, c.d) + 1
Epoch == JDN(2000, 1, 1) = 2451545 /\ JDN(1858, 11, 17) = 2400001
PhaseFact == c.kind = "phase" =>
  /\ PhaseNum(c) \in 0..(c.p - 1) /\ PhaseNum([c EXCEPT !.d = 0]) = 0
  /\ PhaseNum([c EXCEPT !.d = c.d + c.p]) = PhaseNum(c)
  /\ (PhaseNum([c EXCEPT !.d = c.d + 1]) - PhaseNum(c) - 1) % c.p = 0
Emit == PrintT(ToJson([cfg |-> c] @@
  (CASE c.kind = "date" -> [jdn |-> JDN(c.y, c.m, c.d)]
     [] c.kind = "phase" -> [num |-> PhaseNum(c)]
     [] c.kind = "fold" ->
        [keys |-> AllKeys(c.set[1], c.set[2]),
         planets |-> [i \in 1..c.set[2] |-> [per |-> PerOf(c.set[1], i), ref |-> RefTerm(c.set[1], i),
                                            tp |-> TpOf(c.set[1], i)]]])))
=============================================================================
