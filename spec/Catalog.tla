------------------------------ MODULE Catalog ------------------------------
(* A catalogue of session configurations shared by the checks of priors,      *)
(* posteriors, sessions and samplers.                                         *)
EXTENDS Likelihood

RVi(suf, lin, dec) == [suf |-> suf, kind |-> "rv", linear |-> lin, decorr |-> dec, n |-> 6,
                       order |-> "random", jit |-> "pos"]
GPi(suf, kind, hn) == [suf |-> suf, kind |-> kind, linear |-> FALSE, decorr |-> <<>>, n |-> 5,
                       order |-> "random", jit |-> "pos", hn |-> hn]

Cat(np, b, tr, insts, ecc) ==
  [np |-> np, basis |-> b, trend |-> tr, tb |-> "zero", ecc |-> ecc, insts |-> insts, decl |-> "first"]
Catalogue == <<
  Cat(1, "per tc secosw sesinw logk", <<"dvdt", "curv">>, <<RVi("_j", FALSE, <<>>)>>, <<"mid">>),
  Cat(2, "per tp e w k", <<"curv">>, <<RVi("_j", FALSE, <<>>), RVi("_k", FALSE, <<"air">>)>>, <<"small", "mid">>),
  Cat(1, "logper tc secosw sesinw k", <<>>, <<RVi("", FALSE, <<>>)>>, <<"small">>),
  Cat(1, "per tc se w k", <<"dvdt">>, <<GPi("_j", "QuasiPer", ""), RVi("_k", FALSE, <<>>)>>, <<"mid">>),
  Cat(2, "per tc e w k", <<>>, <<RVi("_j", TRUE, <<>>), RVi("_k", FALSE, <<>>)>>, <<"mid", "zero">>),
  Cat(1, "per tc ecosw esinw k", <<"dvdt">>, <<GPi("_j", "SqExp", "_j"), GPi("_k", "Per", "_k")>>, <<"small">>),
  Cat(1, "logper tp e w logk", <<>>, <<GPi("_j", "Celerite", "")>>, <<"small">>)
>>
KeySeq(c) == ParamKeys(c)
IsLinearGamma(c, k) == \E i \in 1..Len(c.insts) : c.insts[i].linear /\ k = GammaKey(c.insts[i])

\* free parameters: everything allowed, a spread, a single one, a suffix of the vector
FreeMode(c, m) ==
  LET ks == KeySeq(c)
      ok(k) == ~IsLinearGamma(c, k)
  IN CASE m = "all" -> SelectSeq(ks, ok)
       [] m = "alternate" -> SelectSeq(ks, LAMBDA k : ok(k) /\ \E i \in 1..Len(ks) : ks[i] = k /\ i % 2 = 0)
       [] m = "one" -> <<CHOOSE k \in {ks[i] : i \in 1..Len(ks)} : ok(k) /\ k \in {"k1", "logk1"}>>
       [] m = "tail" -> SelectSeq(ks, LAMBDA k : ok(k) /\ \E i \in 1..Len(ks) : ks[i] = k /\ i > Len(ks) - 4)
WithFree(c, m) ==
  [np |-> c.np, basis |-> c.basis, trend |-> c.trend, tb |-> c.tb, ecc |-> c.ecc,
   insts |-> c.insts, decl |-> c.decl, free |-> FreeMode(c, m)]
FixedKeys(c) == SelectSeq(KeySeq(c), LAMBDA k : ~InSeq(k, c.free))
=============================================================================
