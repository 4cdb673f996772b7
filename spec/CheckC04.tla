------------------------------ MODULE CheckC04 ------------------------------
(* Model velocities: superposition of Keplerian orbits plus trend.           *)
EXTENDS Likelihood, Json
CONSTANTS Thorough
VARIABLES cfg

Trends == {<<>>, <<"dvdt">>, <<"curv">>, <<"dvdt", "curv">>}
Eccs == {<<"zero">>, <<"tiny", "high">>, <<"small", "zero", "mid">>, <<"mid", "extreme", "zero">>,
         <<"high", "small", "tiny">>, <<"extreme">>}
\* where the sample times sit
Times == {"grid", "special", "single", "random", "far"}
Sub3(b) == IF Thorough THEN Times ELSE {t \in Times : TRUE}

Configs == {[np |-> n, basis |-> b, trend |-> tr, tb |-> tb, ecc |-> ec, times |-> tm,
             insts |-> <<>>, free |-> <<>>] :
            n \in 1..3, b \in Bases, tr \in Trends, tb \in {"zero", "mid", "jd"},
            ec \in Eccs, tm \in Times}
\* quick: a spread of the full product that still contains every pair of factor values
Num(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
BSeq == <<"per tp e w k", "per tc secosw sesinw logk", "per tc secosw sesinw k",
          "per tc ecosw esinw k", "per tc e w k", "logper tc secosw sesinw k",
          "logper tc secosw sesinw logk", "per tc se w k", "logper tp e w logk">>
TSeq == <<<<>>, <<"dvdt">>, <<"curv">>, <<"dvdt", "curv">>>>
ESeq == <<<<"zero">>, <<"tiny", "high">>, <<"small", "zero", "mid">>, <<"mid", "extreme", "zero">>,
         <<"high", "small", "tiny">>, <<"extreme">>>>
MSeq == <<"grid", "special", "single", "random", "far">>
BaseSeq == <<"zero", "mid", "jd">>
Selected(c) == Thorough \/
   (Num(BSeq, c.basis) + 2 * Num(TSeq, c.trend) + 3 * Num(ESeq, c.ecc) + 4 * Num(MSeq, c.times)
     + 5 * Num(BaseSeq, c.tb) + c.np) % 5 = 0
Init == cfg \in {c \in Configs : Selected(c)}
Next == UNCHANGED cfg

t == Vr("t")
tb == Vr("tb")
\* superposition: the whole is the sum of the planets and the trend, and a planet's term
\* mentions no other planet's parameters
Separate == \A i \in 1..cfg.np :
   VarsOf(PlanetRV(cfg.basis, i, t)) \subseteq
     ({PlanetKeys(cfg.basis, i)[j] : j \in 1..5} \cup {"t"})
Uses == \A i \in 1..cfg.np : \A j \in 1..5 :
   PlanetKeys(cfg.basis, i)[j] \in VarsOf(ModelRV(cfg.basis, PlanetList(cfg.np), cfg.trend, t, tb))
Emit == PrintT(ToJson([cfg |-> cfg,
   planets |-> [i \in 1..cfg.np |-> PlanetRV(cfg.basis, i, t)],
   trend |-> SumSeq(TrendTerms(cfg.trend, t, tb)),
   synth |-> [i \in 1..cfg.np |-> Synth(cfg.basis, i)]]))
ASSUME BasisFacts
=============================================================================
