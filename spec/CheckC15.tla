------------------------------ MODULE CheckC15 ------------------------------
EXTENDS Compare, Priors, Json
CONSTANTS Thorough
VARIABLES m
RVc(suf, lin) == [RVi(suf, lin, <<>>) EXCEPT !.n = 17]
GPc(suf, kind, hn) == [GPi(suf, kind, hn) EXCEPT !.n = 14]
Models == <<
  Cat(1, "per tc secosw sesinw logk", <<"dvdt", "curv">>, <<RVc("_j", FALSE)>>, <<"mid">>),
  Cat(2, "per tc secosw sesinw k", <<"dvdt", "curv">>, <<RVc("_j", FALSE), RVc("_k", FALSE)>>, <<"mid", "small">>),
  Cat(2, "per tp e w k", <<"curv">>, <<RVc("_j", FALSE), RVc("_k", FALSE)>>, <<"small", "mid">>),
  Cat(1, "logper tc secosw sesinw k", <<>>, <<RVc("", FALSE)>>, <<"small">>),
  Cat(1, "per tc se w k", <<"dvdt">>, <<GPc("_j", "QuasiPer", ""), RVc("_k", FALSE)>>, <<"mid">>),
  Cat(2, "per tc e w k", <<>>, <<RVc("_j", TRUE), RVc("_k", FALSE)>>, <<"mid", "small">>),
  Cat(1, "per tc ecosw esinw k", <<"dvdt">>, <<GPc("_j", "SqExp", "_j"), GPc("_k", "Per", "_k")>>, <<"small">>),
  Cat(1, "logper tp e w logk", <<"curv", "dvdt">>, <<GPc("_j", "Celerite", "")>>, <<"small">>),
  Cat(1, "per tc e w k", <<"dvdt">>, <<RVc("_j", FALSE), GPc("_k", "Per", "_k")>>, <<"small">>),
  Cat(3, "logper tc secosw sesinw logk", <<"dvdt">>, <<RVc("_j", FALSE)>>, <<"small", "mid">>),
  Cat(2, "per tc secosw sesinw k", <<"dvdt", "curv">>, <<GPc("_j", "QuasiPer", "_j"), GPc("_k", "QuasiPer", "_j")>>, <<"small", "mid">>)>>

\* which parameters are free: orbits, trend, jitters, hyperparameters
OrbPat == {"all", "k", "circ", "e only", "fixed", "first"}
TrendPat == {"all", "dvdt", "none"}
JitPat == {"all", "last", "none"}
GpPat == {"all", "amp", "shape", "none"}
Orb(p, c, i, k) == CASE p = "all" -> TRUE
                     [] p = "k" -> Slot(k) = 5
                     [] p = "circ" -> Slot(k) \in {1, 2, 5}
                     [] p = "e only" -> Slot(k) \in {3, 5}
                     [] p = "fixed" -> FALSE
                     [] p = "first" -> i = 1 \/ Slot(k) \in {1, 3, 4}
FreeKey(c, p, k) ==
    \/ \E i \in 1..c.np, b \in RangeOf(BasisKeys(c.basis)) : k = Key(b, i) /\ Orb(p.orb, c, i, b)
    \/ k \in {"dvdt", "curv"} /\ (p.trend = "all" \/ (p.trend = "dvdt" /\ k = "dvdt"))
    \/ \E j \in 1..Len(c.insts) : k = JitKey(c.insts[j]) /\ (p.jit = "all" \/ (p.jit = "last" /\ j = Len(c.insts)))
    \/ \E j \in 1..Len(c.insts) : k = GammaKey(c.insts[j]) /\ ~c.insts[j].linear
    \/ k \in RangeOf(HypSeq(c.insts)) /\ (p.gp = "all" \/ (p.gp = "amp" /\ k \in AmpKeys(c)) \/ (p.gp = "shape" /\ k \notin AmpKeys(c)))
Pats(i) == IF Thorough
  THEN {p \in [orb : OrbPat, trend : TrendPat, jit : JitPat, gp : GpPat] :
           /\ (p.gp # "all" => \E j \in 1..Len(Models[i].insts) : IsGP(Models[i].insts[j]))
           /\ (p.trend # "all" => Len(Models[i].trend) > 0)
           /\ (p.jit # "all" => p.orb \in {"all", "circ", "fixed"})
           /\ Cardinality({x \in {1, 2, 3} : CASE x = 1 -> p.trend # "all" [] x = 2 -> p.jit # "all" [] x = 3 -> p.gp # "all"}) <= 1}
  ELSE {[orb |-> o, trend |-> "all", jit |-> "all", gp |-> "all"] : o \in OrbPat}
       \cup {[orb |-> "all", trend |-> t, jit |-> "all", gp |-> "all"] : t \in TrendPat}
       \cup {[orb |-> "circ", trend |-> "dvdt", jit |-> j, gp |-> "all"] : j \in JitPat}
       \cup {[orb |-> "all", trend |-> "all", jit |-> "last", gp |-> g] : g \in GpPat}
Model1(i, p) == LET c == Models[i] IN
  [np |-> c.np, basis |-> c.basis, trend |-> c.trend, tb |-> c.tb, ecc |-> c.ecc, insts |-> c.insts,
   decl |-> c.decl, free |-> SelectSeq(KeySeq(c), LAMBDA k : FreeKey(c, p, k))]
ASSUME \A i \in 1..Len(Models) : LET c == Models[i]
   p == [kind |-> "gauss", key |-> JitKey(c.insts[1]), mu |-> <<3, 2>>, sig |-> <<4, 1>>] IN
   PrintT(ToJson([table |-> i, keys |-> KeySeq(c), ll |-> LogLike(c), resid |-> MapSeq(c.insts, LAMBDA in : InstResid(c, in)),
       prior |-> p, lp |-> LogPrior(p, c.basis)]))

Init == \E i \in 1..Len(Models), req \in {r \in SUBSET Features : Thorough \/ Cardinality(r) \in {0, 1, 2, 5}} : \E p \in Pats(i) :
           /\ m = [i |-> i, pat |-> p, req |-> req]
Next == UNCHANGED m
C == Model1(m.i, m.pat)
Inv == LET c == C IN
   /\ Full(c, m.req) /\ EachOnce(c, m.req) /\ OnlyRequested(c, m.req)
   /\ \A f \in m.req : Modular(c, m.req \ {f}, m.req)
Alt(c, o) == [free |-> FreeIn(c, o), nulls |-> NullsIn(c, o), feats |-> Feats(c, o), off |-> o]
Single(c) == UNION {Alternatives(c, {f}) : f \in m.req} \cup {{}}
Emit == LET c == C IN PrintT(ToJson([i |-> m.i, cfg |-> c, req |-> m.req, pat |-> m.pat,
   alts |-> {Alt(c, o) : o \in Alternatives(c, m.req)},
   single |-> {Alt(c, o) : o \in Single(c)}]))
=============================================================================
