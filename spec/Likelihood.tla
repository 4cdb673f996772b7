----------------------------- MODULE Likelihood -----------------------------
(* Likelihood of a radial-velocity data set: per-instrument offset, jitter,  *)
(* decorrelation against ancillary vectors, analytically marginalised        *)
(* offsets, Gaussian-process noise, and the composite over instruments.      *)
EXTENDS Keplerian

\* A configuration is a record
\*  [np |-> number of planets, basis, trend (sequence of "dvdt"/"curv"),
\*   insts |-> sequence of [suf, kind, linear, decorr (sequence of names), hn (suffix of the
\*             hyperparameter names)] , ... ]
\* Data vectors of instrument suffix s are the inputs  "x:s", "y:s", "s:s" and "v:<name>:s".

X(in)  == Vr("x:" \o in.suf)
Y(in)  == Vr("y:" \o in.suf)
S(in)  == Vr("s:" \o in.suf)
GammaKey(in) == "gamma" \o in.suf
JitKey(in)   == "jit" \o in.suf
DecKey(in, d) == "c1_" \o d \o in.suf
DecVec(in, d) == Vr("v:" \o d \o ":" \o in.suf)

PlanetList(n) == [i \in 1..n |-> i]
\* a custom forward model (a sinusoid per planet plus a sinusoid of its own parameters)
CustomRV(cfg, t) ==
  Add(Mul(Vr("amp_c"), Sin(Div(t, Vr("tau_c")))),
      SumSeq([i \in 1..cfg.np |-> Mul(P("k", i), Cos(Div(Mul(TwoPi, Sub(t, P("tc", i))), P("per", i))))]))
Model(cfg, t) ==
  IF "custom" \in DOMAIN cfg THEN Add(CustomRV(cfg, t), SumSeq(TrendTerms(cfg.trend, t, Vr("tb"))))
  ELSE ModelRV(cfg.basis, PlanetList(cfg.np), cfg.trend, t, Vr("tb"))

VarOf(in) == Add(Sqr(S(in)), Sqr(Vr(JitKey(in))))          \* error bar squared
ErrorBar(in) == Sqrt(VarOf(in))

\* data minus orbit minus decorrelation
\* (a vector with missing values is not used)
Used(in) == IF "miss" \in DOMAIN in THEN SelectSeq(in.decorr, LAMBDA d : ~InSeq(d, in.miss)) ELSE in.decorr
Decorr(in) ==
  SumSeq(MapSeq(Used(in),
     LAMBDA d : Mul(Vr(DecKey(in, d)), Sub(DecVec(in, d), Mean(DecVec(in, d))))))
Clean(cfg, in) ==
  LET r == Sub(Y(in), Model(cfg, X(in)))
  IN IF Used(in) = <<>> THEN r ELSE Sub(r, Decorr(in))

\* a fixed, "linear" offset takes its conditional optimum
GammaHat(cfg, in) == Div(Sum(Div(Clean(cfg, in), VarOf(in))), Sum(Div(N(1), VarOf(in))))
Gamma(cfg, in) == IF in.linear THEN GammaHat(cfg, in) ELSE Vr(GammaKey(in))

Resid(cfg, in) == Sub(Clean(cfg, in), Gamma(cfg, in))

\* Gaussian log-likelihood, and its marginal over a linear offset
GaussLL(cfg, in) ==
  Sub(Mul(Neg(Half), Sum(Div(Sqr(Resid(cfg, in)), VarOf(in)))),
      Mul(Half, Sum(Log(Mul(TwoPi, VarOf(in))))))
MargLL(cfg, in) ==
  Add(GaussLL(cfg, in), Mul(Half, Log(Div(TwoPi, Sum(Div(N(1), VarOf(in)))))))

\* ---- Gaussian processes: hyperparameter keys, kernels (as functions of the lag matrix)
HypNames(kind) ==
  CASE kind = "QuasiPer"   -> <<"gp_per", "gp_perlength", "gp_explength", "gp_amp">>
    [] kind = "Per"        -> <<"gp_per", "gp_length", "gp_amp">>
    [] kind = "SqExp"      -> <<"gp_length", "gp_amp">>
    [] kind = "Celerite"   -> <<"gp_B", "gp_C", "gp_L", "gp_Prot">>
IsGP(in) == in.kind # "rv"
HypKey(in, h) == h \o in.hn
H(in, h) == Vr(HypKey(in, h))
Kernel(in, L) ==
  CASE in.kind = "QuasiPer" ->
        Mul(Sqr(H(in, "gp_amp")),
            Exp(Sub(Neg(Div(Sqr(L), Sqr(H(in, "gp_explength")))),
                    Div(Sqr(Sin(Div(Mul(Pi, L), H(in, "gp_per")))),
                        Mul(Two, Sqr(H(in, "gp_perlength")))))))
    [] in.kind = "Per" ->
        Mul(Sqr(H(in, "gp_amp")),
            Exp(Neg(Div(Sqr(Sin(Div(Mul(Pi, L), H(in, "gp_per")))),
                        Mul(Two, Sqr(H(in, "gp_length")))))))
    [] in.kind = "SqExp" ->
        Mul(Sqr(H(in, "gp_amp")), Exp(Neg(Div(Sqr(L), Sqr(H(in, "gp_length"))))))
    [] in.kind = "Celerite" ->
        LET B == H(in, "gp_B")  C == H(in, "gp_C")
        IN Mul(Mul(Div(B, Add(Two, C)), Exp(Neg(Div(F1("abs", L), H(in, "gp_L"))))),
               Add(Cos(Div(Mul(TwoPi, L), H(in, "gp_Prot"))), Add(N(1), C)))
Cov(in, L) == Kernel(in, L)
CovData(in) == Add(Kernel(in, Outer(X(in), X(in))), Diag(VarOf(in)))
GPLL(cfg, in) ==
  Mul(Neg(Half), Add(Add(Quad(CovData(in), Resid(cfg, in)), LogDet(CovData(in))),
                     Mul(Len1(X(in)), Log(TwoPi))))
GPMean(cfg, in, xp) ==
  F2("matvec", Kernel(in, Outer(xp, X(in))), Solve(CovData(in), Resid(cfg, in)))
GPStd(cfg, in, xp) ==
  Sqrt(KDiag(Kernel(in, Outer(xp, xp)), Kernel(in, Outer(xp, X(in))), CovData(in)))

InstLL(cfg, in) == IF IsGP(in) THEN GPLL(cfg, in)
                   ELSE IF in.linear THEN MargLL(cfg, in) ELSE GaussLL(cfg, in)
InstResid(cfg, in) == IF IsGP(in) THEN Sub(Resid(cfg, in), GPMean(cfg, in, X(in)))
                      ELSE Resid(cfg, in)

LogLike(cfg) == SumSeq(MapSeq(cfg.insts, LAMBDA in : InstLL(cfg, in)))

\* ---- information criteria (small-sample corrected)
NData(cfg) == SumSeq(MapSeq(cfg.insts, LAMBDA in : Len1(X(in))))
BIC(cfg, nfree) == Sub(Mul(Log(NData(cfg)), N(nfree)), Mul(Two, LogLike(cfg)))
AICc(cfg, nfree) ==
  LET den == Sub(Sub(NData(cfg), N(nfree)), N(1))
  IN If(Lt(N(0), den),
        Add(Add(Mul(Neg(Two), LogLike(cfg)), N(2 * nfree)),
            Div(N(2 * nfree * (nfree + 1)), den)),
        Neg(NegInf))

\* ---- parameter keys of a configuration, in the order a setup declares them
LikeKeys(cfg) ==
  LET RECURSIVE G(_)
      G(s) == IF s = <<>> THEN <<>>
              ELSE <<GammaKey(Head(s)), JitKey(Head(s))>> \o
                   MapSeq(Head(s).decorr, LAMBDA d : DecKey(Head(s), d)) \o
                   (IF IsGP(Head(s))
                    THEN MapSeq(HypNames(Head(s).kind), LAMBDA h : HypKey(Head(s), h))
                    ELSE <<>>) \o G(Tail(s))
  IN G(cfg.insts)
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1))
                 IN IF InSeq(s[Len(s)], r) THEN r ELSE Append(r, s[Len(s)])
\* rows of the parameter vector: planets, trend, then the rest
RowKeys(cfg) == AllKeys(cfg.basis, cfg.np) \o <<"dvdt", "curv">> \o Dedup(LikeKeys(cfg))
ParamKeys(cfg) == AllKeys(cfg.basis, cfg.np) \o cfg.trend \o Dedup(LikeKeys(cfg))
FreeKeys(cfg) == SelectSeq(RowKeys(cfg), LAMBDA k : InSeq(k, cfg.free))
=============================================================================
