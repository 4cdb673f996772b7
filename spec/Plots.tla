-------------------------------- MODULE Plots --------------------------------
(* What a figure of a posterior shows: for every panel the series of points   *)
(* (one per instrument), their error bars, the curves and the bands, as terms *)
(* over the data and the parameters; which of them an option adds or removes; *)
(* the limits and captions of the panels.                                     *)
EXTENDS Likelihood

\* A figure is [cls |-> "orbit" or "gp"] with the options
\*   sgp, sorb (subtract the noise model's mean / the orbit), sep (a panel per instrument),
\*   sepog (orbit and noise drawn apart), nophase, ...
OnlyPlanet(c, p, t) == PlanetRV(c.basis, p, t)
\* fraction of a period since the planet's reference event
PhaseAt(c, p, t) ==
  Mod(Div(Sub(t, IF Has(c.basis, "tc") THEN P("tc", p) ELSE P("tp", p)), PerOf(c.basis, p)), N(1))
\* the moment of the first period at which a phase occurs
TimeAt(c, p, ph) ==
  Add(IF Has(c.basis, "tc") THEN P("tc", p) ELSE P("tp", p), Mul(ph, PerOf(c.basis, p)))

\* the noise of instrument `in' the figure subtracts from its data
NoiseGone(f, in) == IsGP(in) /\ (f.cls = "orbit" \/ f.sgp)
OrbitGone(f) == f.cls = "gp" /\ f.sorb
\* data without its offset and ancillary trends, less what the figure subtracts
DataPoints(c, f, in) ==
  LET all == Resid(c, in)                       \* also less the orbit
      o == IF OrbitGone(f) THEN all ELSE Add(all, Model(c, X(in)))
  IN IF NoiseGone(f, in) THEN Sub(o, GPMean(c, in, X(in))) ELSE o
ResidPoints(c, in) == InstResid(c, in)
PhasePoints(c, in, p) == Add(InstResid(c, in), OnlyPlanet(c, p, X(in)))

\* curves, at the times `t'
OrbitCurve(c, f, t) == IF OrbitGone(f) THEN Mul(N(0), t) ELSE Model(c, t)
NoiseCurve(c, f, in, t) == IF NoiseGone(f, in) THEN Mul(N(0), t) ELSE GPMean(c, in, t)
Both(c, f, in, t) == Add(OrbitCurve(c, f, t), NoiseCurve(c, f, in, t))
\* curves the panel of the data shows because of instrument `in'
Curves(c, f, in, t) ==
  IF f.cls = "gp" /\ IsGP(in)
  THEN <<Both(c, f, in, t)>> \o (IF f.sepog THEN <<OrbitCurve(c, f, t), NoiseCurve(c, f, in, t)>> ELSE <<>>)
  ELSE <<OrbitCurve(c, f, t)>>
HasBand(f, in) == f.cls = "gp" /\ IsGP(in)

\* the caption of a planet's panel
Caption(c, p) == [per |-> PerOf(c.basis, p), k |-> KOf(c.basis, p), e |-> EOf(c.basis, p)]

\* names of well-known instruments
Known == [hires_rj |-> "HIRES", hires_rk |-> "HIRES pre 2004", harps |-> "HARPS", apf |-> "APF",
          pfs |-> "PFS", lick |-> "LICK", j |-> "HIRES", k |-> "HIRES pre 2004", a |-> "APF", h |-> "HARPS"]
Plain(suf) == CASE suf = "_hires_rj" -> "hires_rj" [] suf = "_hires_rk" -> "hires_rk" [] suf = "_harps" -> "harps"
                [] suf = "_apf" -> "apf" [] suf = "_pfs" -> "pfs" [] suf = "_lick" -> "lick"
                [] suf = "_j" -> "j" [] suf = "_k" -> "k" [] suf = "_a" -> "a" [] suf = "_h" -> "h"
                [] suf = "_foo" -> "foo" [] suf = "_bar" -> "bar" [] suf = "_zed" -> "zed"
                [] OTHER -> suf
IsKnown(suf) == Plain(suf) \in DOMAIN Known
NameOf(suf) == IF IsKnown(suf) THEN Known[Plain(suf)] ELSE Plain(suf)

\* binned points: 25 equal bins over the doubled phases, at least three members
ManyData(c) == LET RECURSIVE T(_)
                   T(s) == IF s = <<>> THEN 0 ELSE Head(s).n + T(Tail(s))
               IN T(c.insts) >= 20
Binned(c, f) == ManyData(c) /\ ~f.nobin
BinNumber(ph, lo, hi) ==
  LET b == Floor(Div(Mul(N(25), Sub(ph, lo)), Sub(hi, lo))) IN F2("min", b, N(24))

\* panels in order: the data (one panel, or one per instrument), the residuals, the planets
NPanels(c, f) == (IF f.cls = "gp" /\ f.sep THEN Len(c.insts) ELSE 1) + 1 + (IF f.nophase THEN 0 ELSE c.np)
=============================================================================
