------------------------------ MODULE CheckC01 ------------------------------
(* Sessions with one posterior; shared by C01 (coherence) and C02 (values).   *)
EXTENDS Session, Catalog, Priors, Json
CONSTANTS Acts,       \* names of the actions explored
          Hows,       \* ways of writing an array
          Evals       \* evaluations told apart (what an object may remember of them is hidden state)
VARIABLES s, last, act
vars == <<s, last, act>>
View == <<s, last>>

Init == act = [name |-> "start"] /\ last = "none" /\ s = Start([g \in Groups |-> g = "a"])
Session1 == \E a \in {x \in Actions : x.name \in Acts /\ (x.name # "fast" \/ x.how \in Hows)} :
             Enabled(s, a) /\ s' = Apply(s, a) /\ act' = a /\ last' = IF Evals = {} \/ a.name \in {"deepcopy", "saveload"} THEN last ELSE a.name
Evaluate == \E e \in Evals : /\ Enabled(s, [name |-> "eval"]) /\ s' = Apply(s, [name |-> "eval"])
                              /\ act' = [name |-> "eval", what |-> e] /\ last' = e
Next == Session1 \/ Evaluate
Spec == Init /\ [][Next]_vars
Steps == [][FixedStay(s, act', s') /\ Written(s, act', s') /\ Pure(s, act', s') /\ EvalPure(s, act', s')
            /\ Coherent(s, act', s') /\ EditKept(s, act', s')]_vars
Readable == NeverMisread(s)
Vw(x, l) == [vec |-> x.vec, dict |-> x.dict, vv |-> x.vv, dv |-> x.dv, lst |-> x.lst, last |-> l]
Emit == PrintT(ToJson([f |-> Vw(s, last), a |-> act', t |-> Vw(s', last')]))

\* ---- configurations: the catalogue, late declarations, a custom forward model, shared names
Custom == [np |-> 1, basis |-> "per tc secosw sesinw k", trend |-> <<"curv">>, tb |-> "mid", ecc |-> <<"small">>,
           insts |-> <<RVi("_j", FALSE, <<>>), RVi("_k", FALSE, <<"air">>)>>, decl |-> "first", custom |-> TRUE]
Late(c) == [np |-> c.np, basis |-> c.basis, trend |-> c.trend, tb |-> "mid", ecc |-> c.ecc, insts |-> c.insts,
            decl |-> "late"]
Small(c) == [c EXCEPT !.ecc = <<"small">>]
Sessions == Catalogue \o <<Custom, Late(Catalogue[2]), Late(Catalogue[5]), Late(Catalogue[1]),
   Cat(3, "per tc se w k", <<"dvdt", "curv">>, <<RVi("_hires_rj", FALSE, <<>>), RVi("_hires_rk", FALSE, <<>>)>>, <<"mid">>),
   Cat(1, "per tc e w k", <<>>, <<GPi("_j", "Celerite", "_j"), GPi("_k", "Per", "_k")>>, <<"small">>)>>
AllK(c) == ParamKeys(c) \o (IF "custom" \in DOMAIN c THEN <<"amp_c", "tau_c">> ELSE <<>>)
ASSUME \A i \in 1..Len(Sessions) : LET c == Small(Sessions[i])
   p == [kind |-> "gauss", key |-> JitKey(c.insts[1]), mu |-> <<3, 2>>, sig |-> <<40, 1>>] IN
  PrintT(ToJson([table |-> i, cfg |-> c, keys |-> AllK(c), prior |-> p, lp |-> LogPrior(p, c.basis),
     lin |-> {k \in {GammaKey(c.insts[j]) : j \in 1..Len(c.insts)} : IsLinearGamma(c, k)},
     ll |-> LogLike(c), resid |-> MapSeq(c.insts, LAMBDA in : InstResid(c, in)),
     err |-> MapSeq(c.insts, ErrorBar), model |-> Model(c, Vr("t")), 
     bic |-> Sub(Mul(Log(NData(c)), Vr("nfree")), Mul(Two, LogLike(c))),
     aic |-> LET den == Sub(Sub(NData(c), Vr("nfree")), N(1)) IN
        If(Lt(N(0), den), Add(Add(Mul(Neg(Two), LogLike(c)), Mul(Two, Vr("nfree"))),
            Div(Mul(Mul(Two, Vr("nfree")), Add(Vr("nfree"), N(1))), den)), Neg(NegInf)),
     mean |-> MapSeq(c.insts, LAMBDA in : IF IsGP(in) THEN GPMean(c, in, Vr("t")) ELSE N(0)),
     var |-> MapSeq(c.insts, LAMBDA in : IF IsGP(in) THEN KDiag(Kernel(in, Outer(Vr("t"), Vr("t"))),
               Kernel(in, Outer(Vr("t"), X(in))), CovData(in)) ELSE N(0))]))
=============================================================================
