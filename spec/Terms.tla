------------------------------- MODULE Terms -------------------------------
(* Symbolic real-valued terms.  TLC has no reals, so every numeric quantity *)
(* of radvel is specified as a term over named inputs; TLC builds the term  *)
(* from the specification's definitions and emits it as JSON, and the       *)
(* conformance harness evaluates it (harness/terms.py, an interpreter that  *)
(* shares no code with radvel) next to what the real code returns.          *)
EXTENDS Integers, Sequences, TLC

Vr(s)      == [op |-> "var", v |-> s]
N(n)       == [op |-> "num", n |-> n, d |-> 1]
Q(n, d)    == [op |-> "num", n |-> n, d |-> d]
F1(f, a)       == [op |-> f, a |-> <<a>>]
F2(f, a, b)    == [op |-> f, a |-> <<a, b>>]
F3(f, a, b, c) == [op |-> f, a |-> <<a, b, c>>]

Mod(a, b) == F2("mod", a, b)
Pi        == [op |-> "pi"]
NegInf    == [op |-> "neginf"]
Add(a, b) == F2("+", a, b)
Sub(a, b) == F2("-", a, b)
Mul(a, b) == F2("*", a, b)
Div(a, b) == F2("/", a, b)
Neg(a)    == F1("neg", a)
Sqr(a)    == F1("sqr", a)
Sqrt(a)   == F1("sqrt", a)
Exp(a)    == F1("exp", a)
Log(a)    == F1("log", a)
Sin(a)    == F1("sin", a)
Cos(a)    == F1("cos", a)
Atan2(y, x) == F2("atan2", y, x)
Asin(a)   == F1("asin", a)
Floor(a)  == F1("floor", a)
\* solution E of Kepler's equation  E - e sin E = M
KepE(M, e) == F2("kepE", M, e)
\* piecewise
If(c, a, b) == F3("if", c, a, b)
Lt(a, b)  == F2("<", a, b)
Le(a, b)  == F2("<=", a, b)
And(a, b) == F2("and", a, b)
Or(a, b)  == F2("or", a, b)
\* reductions over a data vector, matrices
Sum(a)    == F1("sum", a)
Mean(a)   == F1("mean", a)
Len1(a)   == F1("count", a)
Diag(a)   == F1("diag", a)
Outer(a, b) == F2("outerdiff", a, b)   \* matrix  a_i - b_j
Quad(K, r)  == F2("quad", K, r)        \* r^T K^-1 r
LogDet(K)   == F1("logdet", K)
Solve(K, r) == F2("solve", K, r)       \* K^-1 r
MatVec(K, r) == F2("matvec", K, r)
KDiag(Kss, Ks, K) == F3("condvar", Kss, Ks, K)  \* diag(Kss - Ks K^-1 Ks^T)

Two == N(2)
Half == Q(1, 2)
TwoPi == Mul(Two, Pi)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN N(0)
             ELSE IF Len(s) = 1 THEN s[1]
             ELSE Add(SumSeq(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

\* free variables of a term
RECURSIVE VarsOf(_)
VarsOf(t) == IF t.op = "var" THEN {t.v}
             ELSE IF t.op \in {"num", "pi", "neginf"} THEN {}
             ELSE UNION {VarsOf(t.a[i]) : i \in 1..Len(t.a)}
=============================================================================
