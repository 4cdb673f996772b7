------------------------------ MODULE Converge ------------------------------
(* Convergence statistics of a set of ensembles (Ford 2006, eqs. 21-26), per  *)
(* parameter, for the samples c1, c2, .. of the ensembles.                    *)
EXTENDS Terms
Chain(i) == Vr("c" \o ToString(i))
LenC == Len1(Chain(1))
MeanOver(n, F(_)) == Div(SumSeq([i \in 1..n |-> F(i)]), N(n))
VarC(i) == Mean(Sqr(Sub(Chain(i), Mean(Chain(i)))))
Within(n) == MeanOver(n, VarC)                                      \* eq. 21
GrandMean(n) == MeanOver(n, LAMBDA i : Mean(Chain(i)))
\* between-ensemble variance, times the number of samples                eq. 22
Between(n) == IF n = 1 THEN N(0) ELSE
   Mul(LenC, Div(SumSeq([i \in 1..n |-> Sqr(Sub(Mean(Chain(i)), GrandMean(n)))]), N(n - 1)))
VarPlus(n) == Add(Mul(Sub(N(1), Div(N(1), LenC)), Within(n)), Div(Between(n), LenC))  \* eq. 24
GR(n) == Sqrt(Div(VarPlus(n), Within(n)))                           \* eq. 25
Tz(n) == Mul(Mul(N(n), LenC), F2("min", Div(VarPlus(n), Between(n)), N(1)))   \* eq. 26
\* total samples over the autocorrelation time, and its relative change
Factor == Div(Vr("n"), Vr("tau"))
Change == Div(F1("abs", Sub(Vr("tau"), Vr("old"))), Vr("old"))
\* one parameter satisfies every threshold (a single ensemble has no Tz)
Good(n) == And(And(Lt(GR(n), Vr("maxGR")),
                   IF n = 1 THEN Lt(N(0), N(1)) ELSE Lt(Vr("minTz"), Tz(n))),
               And(Lt(Vr("minAfactor"), Factor), Lt(Change, Vr("maxArchange"))))

(* The same statistics on integer samples, exactly: [num, den] with den > 0,  *)
(* or "undefined" (0/0) or "infinite" (x/0).                                  *)
RECURSIVE IS(_, _)
IS(f, n) == IF n = 0 THEN 0 ELSE f[n] + IS(f, n - 1)
ISum(s) == IS(s, Len(s))
ISq(s) == IS([i \in 1..Len(s) |-> s[i] * s[i]], Len(s))
\* c: sequence of ensembles, each a sequence of L integers
Wn(c) == LET L == Len(c[1]) IN IS([i \in 1..Len(c) |-> L * ISq(c[i]) - ISum(c[i]) * ISum(c[i])], Len(c))
Mn(c) == LET n == Len(c) t == IS([i \in 1..n |-> ISum(c[i])], n) IN
         n * IS([i \in 1..n |-> ISum(c[i]) * ISum(c[i])], n) - t * t
Ratio(a, b) == IF b # 0 THEN [num |-> a, den |-> b, is |-> "finite"]
               ELSE [num |-> a, den |-> 0, is |-> IF a = 0 THEN "undefined" ELSE "infinite"]
\* GR^2 and Tz / (n L)
GR2(c) == LET L == Len(c[1]) n == Len(c) IN
   IF n = 1 THEN Ratio((L - 1) * Wn(c), L * Wn(c))
   ELSE Ratio((L - 1) * (n - 1) * Wn(c) + L * Mn(c), L * (n - 1) * Wn(c))
TzFrac(c) == LET L == Len(c[1]) n == Len(c)
                 r == Ratio((L - 1) * (n - 1) * Wn(c) + L * Mn(c), L * L * Mn(c)) IN
   IF r.is = "undefined" THEN r
   ELSE IF r.is = "infinite" \/ r.num > r.den THEN [num |-> 1, den |-> 1, is |-> "finite"] ELSE r
=============================================================================
