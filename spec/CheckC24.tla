------------------------------ MODULE CheckC24 ------------------------------
(* Figures of a posterior (every option, two at a time), figures of samples,  *)
(* and models drawn from samples.                                             *)
EXTENDS Plots, Json
CONSTANTS Thorough
VARIABLES q

RV(suf, lin, dec, jit, n, ord) ==
  [suf |-> suf, kind |-> "rv", linear |-> lin, decorr |-> dec, jit |-> jit, n |-> n, order |-> ord,
   hn |-> "", dup |-> FALSE]
G(suf, kind, hn, n, ord, jit) ==
  [suf |-> suf, kind |-> kind, linear |-> FALSE, decorr |-> <<>>, n |-> n, order |-> ord, jit |-> jit,
   hn |-> hn, dup |-> FALSE]

\* ---- posteriors
Cfg(np, b, tr, tb, ecc, insts, dc) ==
  [np |-> np, basis |-> b, trend |-> tr, tb |-> tb, ecc |-> ecc, insts |-> insts, decl |-> dc, free |-> <<"gamma" \o insts[1].suf>>]
Orbits == <<
  Cfg(1, "per tc secosw sesinw logk", <<"dvdt", "curv">>, "jd", <<"mid">>, <<RV("_hires_rj", FALSE, <<"air">>, "pos", 42, "random")>>, "first"),
  Cfg(2, "per tp e w k", <<>>, "jd", <<"zero", "high">>,
      <<RV("_foo", FALSE, <<>>, "pos", 9, "random"), RV("_harps", TRUE, <<>>, "pos", 24, "random"), RV("_bar", FALSE, <<"air">>, "zero", 11, "sorted")>>, "late"),
  Cfg(1, "logper tc secosw sesinw k", <<"dvdt">>, "mid", <<"small">>, <<RV("_k", FALSE, <<>>, "pos", 10, "random"), RV("_zed", FALSE, <<>>, "pos", 9, "sorted")>>, "first"),
  Cfg(3, "per tc e w k", <<"curv">>, "jd", <<"small", "mid", "zero">>, <<RV("_apf", FALSE, <<>>, "neg", 12, "random"), RV("_lick", FALSE, <<>>, "pos", 8, "random")>>, "first"),
  Cfg(0, "per tc secosw sesinw k", <<"dvdt">>, "jd", <<"mid">>, <<RV("_j", FALSE, <<>>, "pos", 7, "random"), RV("_foo", FALSE, <<>>, "pos", 15, "random")>>, "first")>>
Crowd == Cfg(1, "per tc secosw sesinw k", <<>>, "jd", <<"mid">>,
             [i \in 1..11 |-> RV("u" \o ToString(i), FALSE, <<>>, "pos", 2 + (i % 3), "random")], "first")
Noise == <<
  Cfg(1, "per tc secosw sesinw logk", <<"dvdt">>, "jd", <<"mid">>, <<G("_j", "QuasiPer", "", 24, "random", "pos")>>, "first"),
  Cfg(2, "per tp e w k", <<>>, "mid", <<"small", "mid">>, <<G("_foo", "SqExp", "_foo", 11, "random", "pos"), G("_k", "QuasiPer", "_k", 12, "sorted", "pos")>>, "first"),
  Cfg(1, "logper tc secosw sesinw k", <<"curv">>, "jd", <<"zero">>, <<RV("_zed", FALSE, <<>>, "pos", 12, "random"), G("_hires_rj", "Per", "", 8, "random", "zero")>>, "first"),
  Cfg(1, "per tc e w k", <<>>, "jd", <<"high">>, <<G("_harps", "Celerite", "", 21, "random", "pos")>>, "first"),
  Cfg(0, "per tc secosw sesinw k", <<"dvdt">>, "jd", <<"mid">>, <<G("_bar", "Per", "_bar", 8, "random", "pos"), G("_a", "SqExp", "_bar", 7, "random", "pos")>>, "first")>>

\* ---- options: a default and its alternatives
Default == [epoch |-> "std", xlim |-> FALSE, save |-> FALSE, nobin |-> FALSE, hl |-> FALSE, rms |-> FALSE,
            legend |-> TRUE, nophase |-> FALSE, letters |-> TRUE, unc |-> "none", plim |-> FALSE, ncols |-> 1,
            yauto |-> FALSE, ysig |-> 30, fmts |-> "none", sgp |-> FALSE, sorb |-> FALSE, sep |-> FALSE, sepog |-> FALSE]
Alt == [epoch |-> {"half", "zero"}, xlim |-> {TRUE}, save |-> {TRUE}, nobin |-> {TRUE}, hl |-> {TRUE}, rms |-> {TRUE},
        legend |-> {FALSE}, nophase |-> {TRUE}, letters |-> {FALSE}, unc |-> {"best", "med", "fixed", "mass"}, plim |-> {TRUE},
        ncols |-> {2}, yauto |-> {TRUE}, ysig |-> {15}, fmts |-> {"full", "nocolor", "nolabel"},
        sgp |-> {TRUE}, sorb |-> {TRUE}, sep |-> {TRUE}, sepog |-> {TRUE}]
Names == DOMAIN Default
GPOnly == {"sgp", "sorb", "sep", "sepog"}
OrbOnly == {"hl", "rms", "letters"}
For(cls) == IF cls = "gp" THEN Names \ OrbOnly ELSE Names \ GPOnly
One(cls) == UNION {{[Default EXCEPT ![n] = v] : v \in Alt[n]} : n \in For(cls)}
TwoOf(cls) == UNION {UNION {{[o EXCEPT ![n] = v] : v \in Alt[n]} : n \in For(cls)} : o \in One(cls)}
Opts(cls) == {Default} \cup One(cls) \cup TwoOf(cls)
\* every pair of options on some posterior, every single option on every posterior
Number(o) == Cardinality({n \in Names : o[n] # Default[n]})
Codes == [epoch |-> 1, xlim |-> 2, save |-> 4, nobin |-> 5, hl |-> 7, rms |-> 9, legend |-> 11, nophase |-> 13, letters |-> 3,
          unc |-> 17, plim |-> 19, ncols |-> 6, yauto |-> 23, ysig |-> 25, fmts |-> 8, sgp |-> 27, sorb |-> 29, sep |-> 31, sepog |-> 14]
Hash(o) == LET RECURSIVE A(_)
               A(S0) == IF S0 = {} THEN 0 ELSE LET n == CHOOSE m \in S0 : TRUE IN Codes[n] + A(S0 \ {n})
           IN A({n \in Names : o[n] # Default[n]})
On(o, i, len) == \/ Thorough \/ Number(o) <= 1
                 \/ (Hash(o) % len) + 1 = i
Figures(cls, cs) == UNION {{[kind |-> "figure", cfg |-> cs[i], f |-> o @@ [cls |-> cls]] : o \in {z \in Opts(cls) : On(z, i, Len(cs))}}
                           : i \in 1..Len(cs)}
CrowdFigures == {[kind |-> "figure", cfg |-> Crowd, f |-> o @@ [cls |-> "orbit"]] : o \in {Default} \cup {[Default EXCEPT !.fmts = v] : v \in Alt.fmts}}
\* a noise model in a figure that shows orbits only
Mixed == {[kind |-> "figure", cfg |-> Noise[i], f |-> o @@ [cls |-> "orbit"]] : i \in 1..3, o \in {Default} \cup {[Default EXCEPT !.hl = TRUE, !.rms = TRUE]}}

\* ---- figures of samples
Samples ==
  [kind : {"trend"}, np : {1, 2}, basis : {"per tc secosw sesinw logk", "per tp e w k"}, free : {"some", "all"},
   walkers : {4, 5}, ens : {1, 2, 3}, steps : {3, 7}]
  \cup [kind : {"corner"}, np : {1, 2}, basis : {"per tc secosw sesinw logk", "logper tp e w logk"}, free : {"some", "all"}, save : BOOLEAN]
  \cup [kind : {"derived"}, np : {1, 2, 3}, big : SUBSET {1, 2}, nodens : BOOLEAN, letters : BOOLEAN, save : BOOLEAN]
  \cup [kind : {"auto"}, n : {1, 2, 9}, factor : {30, 50}, low : BOOLEAN]
\* ---- models drawn from samples
Draws ==
  [kind : {"draw"}, np : {1, 2}, basis : {"per tc secosw sesinw logk", "per tp e w k", "logper tc secosw sesinw k"}, free : {"some", "all"},
   index : {"range", "thinned", "shifted", "named"}, rows : {1, 12}, n : {1, 30}]

Init == q \in Figures("orbit", Orbits) \cup Figures("gp", Noise) \cup CrowdFigures \cup Mixed \cup Samples \cup Draws
Next == UNCHANGED q

c == q.cfg
f == q.f
Fig == q.kind = "figure"
Vt == Vr("t")
Inst(F(_)) == MapSeq(c.insts, F)
Planets == PlanetList(c.np)

\* ---- facts
\* nothing the caller subtracts remains, and nothing else goes
ResidFree == Fig => \A i \in 1..Len(c.insts) :
   LET in == c.insts[i] IN
   /\ "y:" \o in.suf \in VarsOf(ResidPoints(c, in))
   /\ ~IsGP(in) => DataPoints(c, [f EXCEPT !.sorb = TRUE, !.cls = "gp"], in) = ResidPoints(c, in)
   /\ (f.cls = "gp" /\ f.sorb /\ f.sgp) => DataPoints(c, f, in) = IF IsGP(in) THEN InstResid(c, in) ELSE Resid(c, in)
   /\ \A j \in 1..Len(c.insts) : j # i => "y:" \o c.insts[j].suf \notin VarsOf(DataPoints(c, f, in))
\* the panel of one planet shows no other planet's orbit
OnePlanet == Fig => \A p \in 1..c.np : \A j \in 1..c.np : j # p =>
   {PlanetKeys(c.basis, j)[m] : m \in 1..5} \cap VarsOf(OnlyPlanet(c, p, Vt)) = {}
Emit == PrintT(ToJson(
  IF ~Fig THEN [kind |-> q.kind, cfg |-> q]
  ELSE [kind |-> q.kind, cfg |-> c, f |-> f, panels |-> NPanels(c, f), binned |-> Binned(c, f),
        data |-> Inst(LAMBDA in : DataPoints(c, f, in)), resid |-> Inst(LAMBDA in : ResidPoints(c, in)),
        err |-> Inst(ErrorBar), names |-> Inst(LAMBDA in : Plain(in.suf)), labels |-> Inst(LAMBDA in : NameOf(in.suf)),
        known |-> Inst(LAMBDA in : IsKnown(in.suf)),
        curves |-> Inst(LAMBDA in : Curves(c, f, in, Vt)), band |-> Inst(LAMBDA in : HasBand(f, in)),
        std |-> Inst(LAMBDA in : IF HasBand(f, in) THEN KDiag(Kernel(in, Outer(Vt, Vt)), Kernel(in, Outer(Vt, X(in))), CovData(in)) ELSE N(0)),
        phase |-> MapSeq(Planets, LAMBDA p : [at |-> PhaseAt(c, p, Vt), when |-> TimeAt(c, p, Vr("ph")),
                       curve |-> OnlyPlanet(c, p, TimeAt(c, p, Vr("ph"))),
                       points |-> Inst(LAMBDA in : PhasePoints(c, in, p)),
                       when_of |-> Inst(LAMBDA in : PhaseAt(c, p, X(in))), caption |-> Caption(c, p)]),
        bin |-> BinNumber(Vr("ph"), Vr("lo"), Vr("hi"))]))
\* models drawn: the whole model at the sampled values
ASSUME \A b \in {"per tc secosw sesinw logk", "per tp e w k", "logper tc secosw sesinw k"} : \A n \in 1..2 :
   PrintT(ToJson([kind |-> "term", basis |-> b, np |-> n, model |-> ModelRV(b, PlanetList(n), <<"dvdt", "curv">>, Vt, Vr("tb"))]))
ASSUME PrintT(ToJson([kind |-> "binterms", mean |-> Mean(Vr("y")),
    err |-> Div(Sqrt(Sub(Mean(Sqr(Vr("y"))), Sqr(Mean(Vr("y"))))), Sqrt(Len1(Vr("y"))))]))
=============================================================================
