------------------------------ MODULE CheckC21 ------------------------------
(* Rounding and summarising, in exact decimal arithmetic.  A decimal number  *)
(* is an integer mantissa and a power of ten.                                *)
EXTENDS Keplerian, FiniteSets, Json
CONSTANTS Thorough
VARIABLES c

RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
RECURSIVE Digits(_)
Digits(m) == IF m < 10 THEN 1 ELSE 1 + Digits(m \div 10)
Max(a, b) == IF a > b THEN a ELSE b

\* m rounded to a multiple of 10^k, as the set of admissible integers m' (two at a tie,
\* where the binary representation decides)
RoundTo(m, k) ==
  IF k <= 0 THEN {m}
  ELSE LET u == P10(k)  lo == (m \div u) * u  r == m - lo
       IN IF 2 * r < u THEN {lo} ELSE IF 2 * r > u THEN {lo + u} ELSE {lo, lo + u}

(* --- significant figures -------------------------------------------------- *)
Mants == {1, 2, 5, 7, 9, 10, 12, 49, 50, 51, 94, 95, 96, 99, 100, 101, 104, 105, 149, 151, 199,
          949, 951, 994, 996, 999, 1000, 1001, 1049, 1051, 1234, 4444, 4445, 5555, 9499, 9501,
          9949, 9951, 9994, 9996, 9999, 12345, 54321, 98765, 99499, 99951, 99999, 123456, 999999}
Sig == [kind : {"sig"}, m : Mants, x : (IF Thorough THEN -18..15 ELSE {-12, -7, -5, -4, -3, -2, -1, 0, 1, 2, 5, 9}),
        s : 1..4, neg : BOOLEAN]
SigOut(r) == RoundTo(r.m, Digits(r.m) - r.s)

(* --- value with uncertainties --------------------------------------------- *)
\* uncertainties as they come out of the rounding to two figures: d1d2 * 10^x
ErrD == {10, 11, 12, 20, 25, 30, 47, 50, 90, 99}
ErrX == -6..2
Round10(d) == 10 * (d \div 10) = d
\* decimals of the shortest decimal text of d * 10^x (a float always shows at least one)
Dec(d, x) == Max(1, IF Round10(d) THEN -(x + 1) ELSE -x)
TrailingZero(d, x) == x >= 0 \/ (x = -1 /\ Round10(d))
\* the value: mantissa times 10^-7
Meds == {0, 1, 4, 60, 499, 5001, 49999, 123456, 999999, 1234567, 9999999, 50000001, 31415926,
         271828182, 999999999}
Fig == [kind : {"fig"}, m : Meds, neg : BOOLEAN, dl : ErrD, xl : ErrX, dh : ErrD, dx : {-1, 0, 1}]
FigOk(r) == Thorough \/ r.dl = r.dh \/ r.dx = 0 \/ (r.dl \in {10, 12} /\ r.dh \in {10, 99})
Xh(r) == r.xl + r.dx
NDec(r) == IF TrailingZero(r.dl, r.xl) /\ TrailingZero(r.dh, Xh(r)) THEN 0
           ELSE Max(Dec(r.dl, r.xl), Dec(r.dh, Xh(r)))
\* with two decimals or more a value never disappears: more figures are kept until one shows
RECURSIVE Keep(_, _)
Keep(m, n) == IF m = 0 \/ n < 2 \/ RoundTo(m, 7 - n) # {0} THEN RoundTo(m, 7 - n)
              ELSE Keep(m, n + 1)
FigOut(r) == Keep(r.m, NDec(r))

(* --- percentiles ----------------------------------------------------------- *)
\* positions (from 1) of the 15.9 and 84.1 percentile among n ordered samples
Sizes == (1..60) \cup {100, 159, 250, 333, 500, 999, 1000, 1001, 2000, 5000}
Per == [kind : {"per"}, n : Sizes]
LowPos(n) == (159 * n) \div 1000 + 1
HighPos(n) == (841 * n) \div 1000 + 1

(* --- angles: peaked clusters on a lattice of degrees ----------------------- *)
Ang == [kind : {"ang"}, centre : {5 * q : q \in -36..36}, spread : {2, 10, 30, 60}, n : {9, 40, 301}]
Wrap(d) == ((((d + 180) % 360) + 360) % 360) - 180      \* [-180, 180)
\* unwrapped about the mode: one turn is added to the part beyond the cut
UnwrapMode(centre, d) ==
  IF centre > 90 /\ Wrap(d) < 0 THEN Wrap(d) + 360
  ELSE IF centre <= -90 /\ Wrap(d) >= 0 THEN Wrap(d) - 360 ELSE Wrap(d)

(* --- the table of compared models ------------------------------------------ *)
\* a model is its AICc in quarters above some number; the table lists models by AICc, equal ones
\* in the order given, and heads each class of the comparison by its verdict
CmpD == {0, 1, 8, 9, 16, 17, 40, 41, 400}
CmpSeqs == UNION {[1..n -> CmpD] : n \in 1..(IF Thorough THEN 4 ELSE 3)}
Cmp == [kind : {"cmp"}, d : CmpSeqs]
Least(d) == CHOOSE m \in {d[i] : i \in DOMAIN d} : \A i \in DOMAIN d : m <= d[i]
Before(d, i, j) == \/ d[i] < d[j]
                   \/ (d[i] = d[j] /\ i < j)
RankOf(d, i) == 1 + Cardinality({j \in DOMAIN d : Before(d, j, i)})
CmpOrder(d) == [r \in DOMAIN d |-> CHOOSE i \in DOMAIN d : RankOf(d, i) = r]
\* Burnham & Anderson: up to 2, 4, 10 above the favoured model
Verdict(q) == IF q = 0 THEN "AICc Favored Model"
              ELSE IF q <= 8 THEN "Nearly Indistinguishable"
              ELSE IF q <= 16 THEN "Somewhat Disfavored"
              ELSE IF q <= 40 THEN "Strongly Disfavored" ELSE "Ruled Out"
CmpRows(d) == LET o == CmpOrder(d)  m == Least(d)
              IN [r \in DOMAIN d |-> [model |-> o[r], delta |-> d[o[r]] - m,
                                      verdict |-> Verdict(d[o[r]] - m)]]

(* --- derived masses: the unit follows the median (in tenths of an Earth mass) -- *)
Der == [kind : {"der"}, med : {1, 10, 80, 999, 1001, 3000, 100000}, np : 1..2, gap : {"none", "missing", "nan"},
        pos : BOOLEAN]
DerUnit(r) == IF r.med > 1000 THEN "jup" ELSE "earth"
\* quantities of a planet that have samples
DerRows(r, i) == {"mpsini", "a"} \cup (IF r.gap # "none" /\ i = 1 THEN {} ELSE {"rhop"})

Init == c \in Cmp \/ c \in Der \/ c \in Sig \/ c \in {r \in Fig : FigOk(r)} \/ c \in Per \/ c \in Ang
Next == UNCHANGED c

\* facts
SigFact == c.kind = "sig" => \A v \in SigOut(c) :
    /\ 2 * (IF v > c.m THEN v - c.m ELSE c.m - v) <= P10(Max(0, Digits(c.m) - c.s))
    /\ Digits(v) \in {Digits(c.m), Digits(c.m) + 1}
FigFact == c.kind = "fig" => \A v \in FigOut(c) :
    /\ NDec(c) <= 7 => 2 * (IF v > c.m THEN v - c.m ELSE c.m - v) <= P10(Max(0, 7 - NDec(c)))
    /\ (NDec(c) >= 2 /\ c.m # 0) => v # 0
PerFact == c.kind = "per" => /\ LowPos(c.n) \in 1..c.n /\ HighPos(c.n) \in 1..c.n
                             /\ LowPos(c.n) <= HighPos(c.n)
\* unwrapping restores a contiguous cluster whenever it does not reach more than a quarter
\* turn from its mode
AngFact == c.kind = "ang" => \A d \in -c.spread..c.spread :
    LET far == (c.centre > 90 \/ c.centre <= -90 \/ (c.centre - c.spread >= -180 /\ c.centre + c.spread < 180))
    IN far => (UnwrapMode(c.centre, c.centre + d) - UnwrapMode(c.centre, c.centre)) = d
CmpFact == c.kind = "cmp" =>
    /\ {CmpOrder(c.d)[r] : r \in DOMAIN c.d} = DOMAIN c.d
    /\ \A r \in DOMAIN c.d : r > 1 => CmpRows(c.d)[r - 1].delta <= CmpRows(c.d)[r].delta
    /\ CmpRows(c.d)[1].verdict = "AICc Favored Model"
Emit == PrintT(ToJson([cfg |-> c] @@
  (CASE c.kind = "sig" -> [out |-> SigOut(c)]
     [] c.kind = "fig" -> [out |-> FigOut(c), nd |-> NDec(c)]
     [] c.kind = "per" -> [lo |-> LowPos(c.n), hi |-> HighPos(c.n)]
     [] c.kind = "cmp" -> [rows |-> CmpRows(c.d)]
     [] c.kind = "der" -> [unit |-> DerUnit(c), rows |-> [i \in 1..c.np |-> DerRows(c, i)]]
     [] c.kind = "ang" -> [zero |-> UnwrapMode(c.centre, c.centre)])))
\* the rows of the parameter table: the print basis, for every fitting basis
ASSUME PrintT(ToJson([rows |-> [b \in Bases |-> [i \in 1..2 |->
   [per |-> PerOf(b, i), tc |-> TcOf(b, i), tp |-> TpOf(b, i), e |-> EOf(b, i), w |-> WOf(b, i),
    k |-> KOf(b, i)]]]]))
=============================================================================
