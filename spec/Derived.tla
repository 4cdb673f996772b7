------------------------------ MODULE Derived ------------------------------
(* Planet properties derived from an orbit and its star (SI constants G,     *)
(* Msun, Mjup, Mearth, Rjup, Rearth, au are inputs).                         *)
EXTENDS Keplerian
Pow(a, b) == F2("pow", a, b)
Cube(a) == Mul(Sqr(a), a)
Day == N(86400)
YearDays == Q(1461, 4)
K0 == Q(284329, 10000)     \* m/s: 1 Mjup around 1 Msun once a year
Circ(e) == Sqrt(Sub(N(1), Sqr(e)))
\* amplitude [m/s] from mass [Mjup], period [d], total mass [Msun], eccentricity
SemiAmp(m, p, mt, e) ==
  Div(Mul(K0, m), Mul(Circ(e), Mul(Pow(Div(p, YearDays), Q(1, 3)), Pow(mt, Q(2, 3)))))
\* its inverse when the planet's mass is negligible
MassLight(k, p, ms, e) ==
  Mul(Mul(Div(k, K0), Circ(e)), Mul(Pow(ms, Q(2, 3)), Pow(Div(p, YearDays), Q(1, 3))))
\* the two-body amplitude, in SI: mass [kg], star [kg], period [d]
AmpSI(m, p, ms, e) ==
  Div(Mul(Pow(Div(Mul(TwoPi, Vr("G")), Mul(p, Day)), Q(1, 3)), m),
      Mul(Circ(e), Pow(Add(ms, m), Q(2, 3))))
\* Kepler's third law, in au, from total mass [Msun]
Semi(p, mt) ==
  Div(Pow(Div(Mul(Sqr(Mul(p, Day)), Mul(Vr("G"), Mul(mt, Vr("Msun")))),
              Mul(N(4), Sqr(Pi))), Q(1, 3)), Vr("au"))
\* bulk density in g/cc, from kg and m
Density(m, r) == Div(Div(m, Mul(Q(4, 3), Mul(Pi, Cube(r)))), N(1000))
=============================================================================
