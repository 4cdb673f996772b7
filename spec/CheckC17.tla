------------------------------ MODULE CheckC17 ------------------------------
(* Gaussian-process likelihoods: every kernel, alone and in composites with   *)
(* shared, separate and mixed hyperparameters, any order of the data, regular *)
(* and degenerate hyperparameters, and predictions at any requested times.    *)
EXTENDS Likelihood, Json, FiniteSets
CONSTANTS Thorough
VARIABLES c

Kinds == {"QuasiPer", "Per", "SqExp", "Celerite"}
G(suf, kind, hn, n, ord, jit, dup) ==
  [suf |-> suf, kind |-> kind, linear |-> FALSE, decorr |-> <<>>, n |-> n, order |-> ord,
   jit |-> jit, hn |-> hn, dup |-> dup]
RVI(suf, n) == [suf |-> suf, kind |-> "rv", linear |-> FALSE, decorr |-> <<>>, n |-> n, order |-> "random",
                jit |-> "pos", hn |-> "", dup |-> FALSE]
Singles == {<<G(suf, k, hn, n, o, j, d)>> : suf \in {"", "_j"}, k \in Kinds, hn \in {"", "_j"},
              n \in {1, 6}, o \in {"sorted", "random"}, j \in {"pos", "zero", "neg"}, d \in BOOLEAN}
Orders == {<<"random", "sorted">>, <<"random", "random">>}
Shared == {<<G("_j", k, "", 5, o[1], "pos", FALSE), G("_k", k, "", 6, o[2], "zero", FALSE)>> : k \in Kinds, o \in Orders}
Separate == {<<G("_j", k, "_j", 5, o[1], "pos", FALSE), G("_k", m, "_k", 4, o[2], "pos", FALSE)>> :
               k \in Kinds, m \in Kinds, o \in Orders}
Mixed == {<<G("_j", k, "", 5, "random", "neg", TRUE), RVI("_k", 4)>> : k \in Kinds}
         \cup {<<RVI("_k", 4), G("_j", k, "_j", 5, "random", "pos", FALSE)>> : k \in Kinds}
         \cup {<<G("_a", k, "", 3, "random", "pos", FALSE), G("_b", m, "_b", 4, "random", "pos", FALSE), RVI("_c", 3),
                 G("_d", k, "", 2, "random", "pos", FALSE)>> : k \in Kinds, m \in Kinds}

Shapes == <<[np |-> 1, basis |-> "per tc secosw sesinw logk", trend |-> <<"dvdt">>, tb |-> "mid", ecc |-> <<"mid">>],
            [np |-> 2, basis |-> "per tp e w k", trend |-> <<>>, tb |-> "zero", ecc |-> <<"zero", "small">>],
            [np |-> 1, basis |-> "logper tc secosw sesinw k", trend |-> <<"dvdt", "curv">>, tb |-> "jd", ecc |-> <<"small">>]>>
\* degenerate amplitudes: the model without a GP, as model comparison uses it
Degenerate(l) == {"none"} \cup (IF \A i \in 1..Len(l) : l[i].kind \in {"rv", "QuasiPer", "Per", "SqExp"}
                                THEN {"amp0"} ELSE {})
                          \cup (IF \A i \in 1..Len(l) : l[i].kind \in {"rv", "QuasiPer"}
                                THEN {"all0", "explength0"} ELSE {})
Mk(l, s, z) == [np |-> s.np, basis |-> s.basis, trend |-> s.trend, tb |-> s.tb, ecc |-> s.ecc, insts |-> l,
                decl |-> "first", zero |-> z, free |-> <<"gamma" \o l[1].suf, "jit" \o l[1].suf>>]
Layouts == Singles \cup Shared \cup Separate \cup Mixed
Configs == UNION {{Mk(l, Shapes[s], z) : s \in IF Thorough THEN 1..3 ELSE {1 + ((l[1].n + Len(l)) % 3)},
                     z \in Degenerate(l)} : l \in Layouts}
\* two measurements at one time whose uncertainties and jitter vanish: no density is defined
Singular == {Mk(l, Shapes[1], "singular") : l \in
   {<<G("_j", k, "", 2, "sorted", "zero", FALSE)>> : k \in {"QuasiPer", "Per", "SqExp"}} \cup
   {<<RVI("_k", 4), G("_j", k, "_j", 2, "sorted", "zero", FALSE)>> : k \in {"QuasiPer", "Per", "SqExp"}}}
Init == c \in Configs \cup Singular
Next == UNCHANGED c

Gone(in) == in.kind = "QuasiPer" /\ c.zero \notin {"none", "singular"}
\* without a GP the covariance is the noise alone
NoGPCov(in) == Diag(VarOf(in))
NoGPLL(in) == GaussLL(c, in)
Defined(in) == Lt(N(0), Sqr(Vr(JitKey(in))))
LL(in) == IF IsGP(in) /\ c.zero = "singular" THEN If(Defined(in), InstLL(c, in), NegInf)
          ELSE IF IsGP(in) /\ Gone(in) THEN NoGPLL(in) ELSE InstLL(c, in)
PMean(in, xp) == IF Gone(in) THEN Mul(N(0), xp) ELSE GPMean(c, in, xp)
PVar(in, xp) == IF Gone(in) THEN Mul(N(0), xp)
                ELSE KDiag(Kernel(in, Outer(xp, xp)), Kernel(in, Outer(xp, X(in))), CovData(in))
DataCov(in) == IF Gone(in) THEN NoGPCov(in) ELSE CovData(in)
HypSet(in) == IF IsGP(in) THEN {HypKey(in, HypNames(in.kind)[h]) : h \in 1..Len(HypNames(in.kind))} ELSE {}

\* facts: an instrument's density mentions its own data, noise and hyperparameters only
Own(i) == LET vs == VarsOf(LL(c.insts[i])) IN
  \A j \in 1..Len(c.insts) : j # i =>
     /\ ~({"x:" \o c.insts[j].suf, "y:" \o c.insts[j].suf, GammaKey(c.insts[j]), JitKey(c.insts[j])} \cap vs # {})
     /\ (HypSet(c.insts[j]) \ HypSet(c.insts[i])) \cap vs = {}
OwnOnly == \A i \in 1..Len(c.insts) : Own(i)
Uses == \A i \in 1..Len(c.insts) : (IsGP(c.insts[i]) /\ ~Gone(c.insts[i])) => HypSet(c.insts[i]) \subseteq VarsOf(LL(c.insts[i]))
Emit == PrintT(ToJson([cfg |-> c, ll |-> MapSeq(c.insts, LL),
   cov |-> MapSeq(c.insts, LAMBDA in : IF IsGP(in) THEN DataCov(in) ELSE N(0)),
   resid |-> MapSeq(c.insts, LAMBDA in : IF IsGP(in) THEN Sub(Resid(c, in), PMean(in, X(in))) ELSE Resid(c, in)),
   err |-> MapSeq(c.insts, ErrorBar),
   mean |-> MapSeq(c.insts, LAMBDA in : IF IsGP(in) THEN PMean(in, Vr("xp")) ELSE N(0)),
   var |-> MapSeq(c.insts, LAMBDA in : IF IsGP(in) THEN PVar(in, Vr("xp")) ELSE N(0)),
   own |-> MapSeq(c.insts, LAMBDA in : HypSet(in))]))
\* the kernels as functions of the lag matrix
ASSUME \A k \in Kinds : \A hn \in {"", "_j"} : LET in == G("_j", k, hn, 5, "random", "pos", FALSE) IN
   PrintT(ToJson([kernel |-> k, hn |-> hn, names |-> HypNames(k), keys |-> MapSeq(HypNames(k), LAMBDA h : HypKey(in, h)),
                  term |-> Kernel(in, Outer(Vr("x1"), Vr("x2")))]))
=============================================================================
