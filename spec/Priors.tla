------------------------------- MODULE Priors -------------------------------
(* Every prior: its support, its log-density, its inverse cumulative          *)
(* distribution, and how nested sampling splits a posterior.  Prior records:  *)
(*   [kind, key, ...numbers as rationals <<n, d>>, d > 0]                      *)
EXTENDS Keplerian

R(q) == Q(q[1], q[2])
\* exact rational order
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RAdd(a, b) == <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
RSub(a, b) == <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>
RMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
RSq(a) == RMul(a, a)
Zero == <<0, 1>>

LnNormal(z, s) == Sub(Neg(Div(Sqr(z), Mul(Two, Sqr(s)))),
                      Mul(Half, Log(Mul(TwoPi, Sqr(s)))))

\* planets an eccentricity or amplitude prior speaks about, and their limits
EccPlanets(p) == IF p.form = "list" THEN p.planets ELSE [j \in 1..p.n |-> j]
EccLim(p, j) == CASE p.form = "default" -> <<99, 100>>
                  [] p.form = "scalar" -> p.lims[1]
                  [] p.form = "list" -> p.lims[j]

SquaredEcc(b, i) ==      \* used on exact values: comparisons of e with a limit
  CASE Has(b, "e") -> Sqr(P("e", i))
    [] Has(b, "se") -> Sqr(Sqr(P("se", i)))
    [] Has(b, "secosw") -> Sqr(Add(Sqr(P("secosw", i)), Sqr(P("sesinw", i))))
    [] Has(b, "ecosw") -> Add(Sqr(P("ecosw", i)), Sqr(P("esinw", i)))

RECURSIVE AndSeq(_)
AndSeq(s) == IF Len(s) = 1 THEN s[1] ELSE And(AndSeq(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
True1 == Le(N(0), N(0))

\* ---- support as a condition on the parameter values
Support(p, b) ==
  CASE p.kind \in {"gauss", "xg"} -> True1
    [] p.kind = "user" -> True1
    [] p.kind = "num" -> True1
    [] p.kind = "sec" -> True1
    [] p.kind = "base" -> True1
    [] p.kind = "bounds" -> And(Lt(R(p.lo), Vr(p.key)), Lt(Vr(p.key), R(p.hi)))
    [] p.kind = "ubox" -> And(Le(R(p.lo), Vr(p.keys[1])), Le(Vr(p.keys[1]), R(p.hi)))
    [] p.kind \in {"jeff", "modjeff"} -> And(Le(R(p.lo), Vr(p.key)), Le(Vr(p.key), R(p.hi)))
    [] p.kind = "ecc" -> LET pl == EccPlanets(p) IN AndSeq([j \in 1..Len(pl) |->
           And(Le(N(0), EOf(b, pl[j])), Le(EOf(b, pl[j]), R(EccLim(p, j))))])
    [] p.kind = "posk" -> AndSeq([j \in 1..p.n |-> Le(N(0), KOf(b, j))])

PredictedEclipse(b, i) ==
  Add(TpOf(b, i), Mod(SincePeri(FSec(WOf(b, i)), PerOf(b, i), EOf(b, i)), PerOf(b, i)))

\* ---- log-density inside the support
Density(p, b) ==
  CASE p.kind \in {"gauss", "xg"} -> LnNormal(Sub(Vr(p.key), R(p.mu)), R(p.sig))
    [] p.kind \in {"bounds", "ubox"} -> Neg(Log(Sub(R(p.hi), R(p.lo))))
    [] p.kind = "jeff" -> Neg(Add(Log(Vr(p.key)), Log(Log(Div(R(p.hi), R(p.lo))))))
    [] p.kind = "modjeff" -> Neg(Add(Log(Sub(Vr(p.key), R(p.knee))),
           Log(Log(Div(Sub(R(p.hi), R(p.knee)), Sub(R(p.lo), R(p.knee)))))))
    [] p.kind = "ecc" -> LET pl == EccPlanets(p) IN
           Neg(SumSeq([j \in 1..Len(pl) |-> Log(R(EccLim(p, j)))]))
    [] p.kind = "posk" -> N(0)
    [] p.kind = "base" -> LET x == IF p.log THEN Exp(Vr(p.key)) ELSE Vr(p.key) IN
           If(Le(Sub(x, R(p.dur)), R(p.b)), N(0), Log(Div(Add(R(p.b), R(p.dur)), x)))
    [] p.kind = "sec" -> LET i == p.planet
           d == Div(Sub(PredictedEclipse(b, i), Vr("ts")), PerOf(b, i))
           w == Sub(d, Floor(Add(d, Half)))          \* nearest epoch
       IN LnNormal(w, Div(R(p.err), PerOf(b, i)))
    [] p.kind = "user" -> SumSeq([j \in 1..Len(p.keys) |-> Mul(R(p.coef[j]), Vr(p.keys[j]))])
    [] p.kind = "num" ->    \* kernel density estimate of the supplied samples (Scott's rule)
       IF Len(p.keys) = 1
       THEN Log(Mean(Div(Exp(Neg(Div(Sqr(Sub(Vr(p.keys[1]), Vr("D1"))), Mul(Two, Vr("caa"))))),
                         Sqrt(Mul(TwoPi, Vr("caa"))))))
       ELSE LET dx == Sub(Vr(p.keys[1]), Vr("D1"))
                dy == Sub(Vr(p.keys[2]), Vr("D2"))
                det == Sub(Mul(Vr("caa"), Vr("cbb")), Sqr(Vr("cab")))
                q == Div(Add(Sub(Mul(Vr("cbb"), Sqr(dx)), Mul(Mul(Two, Vr("cab")), Mul(dx, dy))),
                             Mul(Vr("caa"), Sqr(dy))), det)
            IN Log(Mean(Div(Exp(Neg(Mul(Half, q))), Mul(TwoPi, Sqrt(det)))))

LogPrior(p, b) == If(Support(p, b), Density(p, b), NegInf)

\* ---- cumulative distribution and its inverse, for the priors with a transform
Cdf(p) ==
  CASE p.kind = "gauss" -> F1("normcdf", Div(Sub(Vr(p.key), R(p.mu)), R(p.sig)))
    [] p.kind = "bounds" -> Div(Sub(Vr(p.key), R(p.lo)), Sub(R(p.hi), R(p.lo)))
    [] p.kind = "ubox" -> Div(Sub(Vr(p.keys[1]), R(p.lo)), Sub(R(p.hi), R(p.lo)))
    [] p.kind = "jeff" -> Div(Log(Div(Vr(p.key), R(p.lo))), Log(Div(R(p.hi), R(p.lo))))
    [] p.kind = "modjeff" ->
         Div(Log(Div(Sub(Vr(p.key), R(p.knee)), Sub(R(p.lo), R(p.knee)))),
             Log(Div(Sub(R(p.hi), R(p.knee)), Sub(R(p.lo), R(p.knee)))))
Transformable == {"gauss", "bounds", "jeff", "modjeff", "ubox"}
\* the value whose cumulative probability is u
Quantile(p) ==
  CASE p.kind = "gauss" -> Add(R(p.mu), Mul(R(p.sig), F1("normppf", Vr("u"))))
    [] p.kind \in {"bounds", "ubox"} -> Add(R(p.lo), Mul(Vr("u"), Sub(R(p.hi), R(p.lo))))
    [] p.kind = "jeff" -> Mul(R(p.lo), F2("pow", Div(R(p.hi), R(p.lo)), Vr("u")))
    [] p.kind = "modjeff" -> Add(R(p.knee), Mul(Sub(R(p.lo), R(p.knee)),
           F2("pow", Div(Sub(R(p.hi), R(p.knee)), Sub(R(p.lo), R(p.knee))), Vr("u"))))

\* ---- nested sampling: extra constraints go to the likelihood, the others are transforms
\* ("xg": a user's own prior class of one parameter that is declared an extra constraint)
Extra(p) == p.kind \in {"ecc", "posk", "sec", "xg"}
NamesOf(p) == CASE p.kind \in {"gauss", "bounds", "jeff", "modjeff", "base", "xg"} -> <<p.key>>
                [] p.kind \in {"user", "num", "ubox"} -> p.keys
                [] OTHER -> <<>>
Transforms(priors, k) == {j \in 1..Len(priors) : ~Extra(priors[j]) /\ InSeq(k, NamesOf(priors[j]))}
\* a run may start: exactly one transform for every free parameter, none for a fixed one,
\* and none that would have to draw several parameters at once
Proper(priors, free) ==
  /\ \A k \in free : Cardinality(Transforms(priors, k)) = 1
  /\ \A j \in 1..Len(priors) : ~Extra(priors[j]) =>
        /\ Len(NamesOf(priors[j])) = 1
        /\ NamesOf(priors[j])[1] \in free
=============================================================================
