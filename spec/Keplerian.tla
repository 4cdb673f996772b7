----------------------------- MODULE Keplerian -----------------------------
(* The orbital parameter bases, the meaning of every key, and the radial-   *)
(* velocity forward model.                                                  *)
EXTENDS Terms, FiniteSets

\* ---- the nine fitting bases: ordered keys of one planet
Bases == {"per tp e w k", "per tc secosw sesinw logk", "per tc secosw sesinw k",
          "per tc ecosw esinw k", "per tc e w k", "logper tc secosw sesinw k",
          "logper tc secosw sesinw logk", "per tc se w k", "logper tp e w logk"}
PrintBasis == "per tc tp e w k"
SynthBasis == "per tp e w k"

BasisKeys(b) ==
  CASE b = "per tp e w k"                 -> <<"per", "tp", "e", "w", "k">>
    [] b = "per tc secosw sesinw logk"    -> <<"per", "tc", "secosw", "sesinw", "logk">>
    [] b = "per tc secosw sesinw k"       -> <<"per", "tc", "secosw", "sesinw", "k">>
    [] b = "per tc ecosw esinw k"         -> <<"per", "tc", "ecosw", "esinw", "k">>
    [] b = "per tc e w k"                 -> <<"per", "tc", "e", "w", "k">>
    [] b = "per tc tp e w k"              -> <<"per", "tc", "tp", "e", "w", "k">>
    [] b = "logper tc secosw sesinw k"    -> <<"logper", "tc", "secosw", "sesinw", "k">>
    [] b = "logper tc secosw sesinw logk" -> <<"logper", "tc", "secosw", "sesinw", "logk">>
    [] b = "per tc se w k"                -> <<"per", "tc", "se", "w", "k">>
    [] b = "logper tp e w logk"           -> <<"logper", "tp", "e", "w", "logk">>

OrbitalKeys == {"per", "logper", "tc", "tp", "e", "se", "secosw", "ecosw", "w", "sesinw",
                "esinw", "k", "logk"}

\* which of the five numbers describing an orbit a key carries (its place in the basis)
Slot(k) == CASE k \in {"per", "logper"} -> 1
             [] k \in {"tc", "tp"} -> 2
             [] k \in {"e", "se", "secosw", "ecosw"} -> 3
             [] k \in {"w", "sesinw", "esinw"} -> 4
             [] k \in {"k", "logk"} -> 5

Has(b, k) == InSeq(k, BasisKeys(b))
EccKeys(b) == SelectSeq(BasisKeys(b), LAMBDA k : Slot(k) \in {3, 4})
CircKeys(b) == SelectSeq(BasisKeys(b), LAMBDA k : Slot(k) \in {1, 2, 5})

Key(k, i) == k \o ToString(i)
P(k, i) == Vr(Key(k, i))

PlanetKeys(b, i) == MapSeq(BasisKeys(b), LAMBDA k : Key(k, i))
RECURSIVE AllKeys(_, _)
AllKeys(b, n) == IF n = 0 THEN <<>> ELSE AllKeys(b, n - 1) \o PlanetKeys(b, n)

\* ---- geometry: the time from periastron to the moment the true anomaly is f
EccAnom(f, e) == Atan2(Mul(Sqrt(Sub(N(1), Sqr(e))), Sin(f)), Add(e, Cos(f)))
SincePeri(f, per, e) ==
  LET E == EccAnom(f, e) IN Mul(Div(per, TwoPi), Sub(E, Mul(e, Sin(E))))
FConj(w) == Sub(Div(Pi, Two), w)          \* inferior conjunction (transit)
FSec(w)  == Sub(Div(Mul(N(3), Pi), Two), w)  \* superior conjunction (secondary eclipse)
TpOfTc(tc, per, e, w) == Sub(tc, SincePeri(FConj(w), per, e))
TcOfTp(tp, per, e, w) == Add(tp, SincePeri(FConj(w), per, e))

\* ---- synthesis elements [per, tp, e, w, k] of planet i, from the keys of basis b
PerOf(b, i) == IF Has(b, "per") THEN P("per", i) ELSE Exp(P("logper", i))
KOf(b, i)   == IF Has(b, "k") THEN P("k", i) ELSE Exp(P("logk", i))
EOf(b, i)   == CASE Has(b, "e") -> P("e", i)
                 [] Has(b, "se") -> Sqr(P("se", i))
                 [] Has(b, "secosw") -> Add(Sqr(P("secosw", i)), Sqr(P("sesinw", i)))
                 [] Has(b, "ecosw") -> Sqrt(Add(Sqr(P("ecosw", i)), Sqr(P("esinw", i))))
WOf(b, i)   == CASE Has(b, "w") -> P("w", i)
                 [] Has(b, "secosw") -> Atan2(P("sesinw", i), P("secosw", i))
                 [] Has(b, "ecosw") -> Atan2(P("esinw", i), P("ecosw", i))
TpOf(b, i)  == IF Has(b, "tp") THEN P("tp", i)
               ELSE TpOfTc(P("tc", i), PerOf(b, i), EOf(b, i), WOf(b, i))
TcOf(b, i)  == IF Has(b, "tc") THEN P("tc", i)
               ELSE TcOfTp(P("tp", i), PerOf(b, i), EOf(b, i), WOf(b, i))

Synth(b, i) == [per |-> PerOf(b, i), tp |-> TpOf(b, i), e |-> EOf(b, i), w |-> WOf(b, i),
                k |-> KOf(b, i)]

\* ---- the keys of basis b, from synthesis elements s
FromSynth(s, k) ==
  CASE k = "per" -> s.per
    [] k = "logper" -> Log(s.per)
    [] k = "tp" -> s.tp
    [] k = "tc" -> TcOfTp(s.tp, s.per, s.e, s.w)
    [] k = "e" -> s.e
    [] k = "se" -> Sqrt(s.e)
    [] k = "secosw" -> Mul(Sqrt(s.e), Cos(s.w))
    [] k = "sesinw" -> Mul(Sqrt(s.e), Sin(s.w))
    [] k = "ecosw" -> Mul(s.e, Cos(s.w))
    [] k = "esinw" -> Mul(s.e, Sin(s.w))
    [] k = "w" -> s.w
    [] k = "k" -> s.k
    [] k = "logk" -> Log(s.k)

\* ---- radial velocity of one Keplerian orbit at time t
RVOf(s, t) ==
  LET E == KepE(Mul(TwoPi, Div(Sub(t, s.tp), s.per)), s.e)
      den == Sub(N(1), Mul(s.e, Cos(E)))
      cosnu == Div(Sub(Cos(E), s.e), den)
      sinnu == Div(Mul(Sqrt(Sub(N(1), Sqr(s.e))), Sin(E)), den)
  IN Mul(s.k, Add(Sub(Mul(Cos(s.w), cosnu), Mul(Sin(s.w), sinnu)), Mul(s.e, Cos(s.w))))

PlanetRV(b, i, t) == RVOf(Synth(b, i), t)

\* ---- the whole model: planets `ps` (a sequence of numbers) plus the trend about time_base
TrendTerms(trend, t, tb) ==
  (IF InSeq("dvdt", trend) THEN <<Mul(Vr("dvdt"), Sub(t, tb))>> ELSE <<>>) \o
  (IF InSeq("curv", trend) THEN <<Mul(Vr("curv"), Sqr(Sub(t, tb)))>> ELSE <<>>)
ModelRV(b, ps, trend, t, tb) ==
  SumSeq(MapSeq(ps, LAMBDA i : PlanetRV(b, i, t)) \o TrendTerms(trend, t, tb))

\* ---- facts about the bases TLC checks (ASSUMEd in the check modules)
BasisFacts ==
  /\ \A b \in Bases : Len(BasisKeys(b)) = 5
  /\ \A b \in Bases : \A j \in 1..5 : Slot(BasisKeys(b)[j]) = j
  /\ \A b \in Bases : \A n \in 1..3 :
       Cardinality({AllKeys(b, n)[j] : j \in 1..(5 * n)}) = 5 * n
  /\ \A b \in Bases : Len(EccKeys(b)) = 2 /\ Len(CircKeys(b)) = 3
  /\ \A b \in Bases : \A k \in {"per", "tp", "e", "w", "k"} :
       VarsOf(Synth(b, 1)[k]) \subseteq {PlanetKeys(b, 1)[j] : j \in 1..5}
=============================================================================
