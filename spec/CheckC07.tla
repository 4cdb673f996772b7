------------------------------ MODULE CheckC07 ------------------------------
(* Priors on exact lattices of values (support decided by TLC in rationals)   *)
(* and as terms for arbitrary values.                                         *)
EXTENDS Priors, Json
CONSTANTS Thorough
VARIABLES c

BSeq == <<"per tp e w k", "per tc secosw sesinw logk", "per tc secosw sesinw k",
          "per tc ecosw esinw k", "per tc e w k", "logper tc secosw sesinw k",
          "logper tc secosw sesinw logk", "per tc se w k", "logper tp e w logk">>
Keys(b) == {"gamma_j", "jit_j", "dvdt", "curv", "gp_amp", "gamma", Key(BasisKeys(b)[2], 1),
            Key(BasisKeys(b)[5], 2), Key(BasisKeys(b)[3], 3), Key(BasisKeys(b)[1], 2)}
BK == {<<"per tc secosw sesinw logk", k>> : k \in Keys("per tc secosw sesinw logk")} \cup
      {<<"logper tp e w logk", k>> : k \in Keys("logper tp e w logk")} \cup
      {<<"per tc se w k", k>> : k \in Keys("per tc se w k")}

\* ---- one-parameter priors
Gauss == {[kind |-> "gauss", mu |-> m, sig |-> s] : m \in {<<-3, 2>>, <<2, 1>>}, s \in {<<1, 4>>, <<3, 1>>}}
Bounds == {[kind |-> "bounds", lo |-> q[1], hi |-> q[2]] :
             q \in {<<<<-3, 2>>, <<2, 1>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<-8, 1>>, <<-1, 4>>>>, <<<<1, 8>>, <<1, 4>>>>}}
Jeff == {[kind |-> "jeff", lo |-> q[1], hi |-> q[2]] : q \in {<<<<1, 2>>, <<4, 1>>>>, <<<<1, 8>>, <<1, 4>>>>, <<<<1, 1>>, <<64, 1>>>>}}
Modj == {[kind |-> "modjeff", lo |-> q[1], hi |-> q[2], knee |-> q[3]] :
           q \in {<<<<0, 1>>, <<3, 1>>, <<-1, 1>>>>, <<<<2, 1>>, <<8, 1>>, <<1, 2>>>>, <<<<-1, 1>>, <<5, 2>>, <<-2, 1>>>>}}
Lattice == {<<-10, 1>>, <<-8, 1>>, <<-2, 1>>, <<-3, 2>>, <<-1, 1>>, <<-1, 4>>, <<0, 1>>, <<1, 16>>, <<1, 8>>, <<3, 16>>,
            <<1, 4>>, <<1, 2>>, <<1, 1>>, <<2, 1>>, <<5, 2>>, <<3, 1>>, <<4, 1>>, <<8, 1>>, <<63, 1>>, <<64, 1>>, <<65, 1>>}
WithKey(p, k) == CASE p.kind = "gauss" -> [kind |-> p.kind, key |-> k, mu |-> p.mu, sig |-> p.sig]
                   [] p.kind \in {"bounds", "jeff"} -> [kind |-> p.kind, key |-> k, lo |-> p.lo, hi |-> p.hi]
                   [] p.kind = "modjeff" -> [kind |-> p.kind, key |-> k, lo |-> p.lo, hi |-> p.hi, knee |-> p.knee]
One(b, p, pts) == [b |-> b, np |-> 3, p |-> p, pts |-> pts]
Simple == UNION {{One(bk[1], WithKey(p, bk[2]), {<<<<bk[2], x>>>> : x \in Lattice}) :
             p \in Gauss \cup Bounds \cup Jeff \cup Modj} : bk \in BK}

\* ---- period prior of the observing baseline
BaseP == UNION {{One(b, [kind |-> "base", key |-> Key(IF Has(b, "per") THEN "per" ELSE "logper", i),
                    log |-> ~Has(b, "per"), b |-> q[1], dur |-> q[2]],
                 IF Has(b, "per") THEN {<<<<Key("per", i), x>>>> : x \in {<<1, 1>>, <<4, 1>>, <<5, 1>>, <<11, 2>>, <<30, 1>>, <<64, 1>>}} ELSE {})
              : i \in {1, 2}, q \in {<<<<4, 1>>, <<1, 1>>>>, <<<<30, 1>>, <<0, 1>>>>, <<<<5, 1>>, <<1, 2>>>>}} : b \in Bases}

\* ---- eccentricity priors: planets 1..3 take exact eccentricities
EccPts(b, i) == CASE Has(b, "e") -> {<<<<Key("e", i), x>>>> : x \in {<<-1, 8>>, <<-1, 128>>, <<0, 1>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}}
                  [] Has(b, "se") -> {<<<<Key("se", i), x>>>> : x \in {<<0, 1>>, <<-1, 2>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<9, 8>>}}
                  [] Has(b, "secosw") -> {<<<<Key("secosw", i), x>>, <<Key("sesinw", i), y>>>> :
                        x \in {<<0, 1>>, <<-1, 2>>, <<1, 4>>}, y \in {<<0, 1>>, <<1, 2>>, <<-3, 4>>, <<1, 1>>}}
                  [] Has(b, "ecosw") -> {<<<<Key("ecosw", i), x>>, <<Key("esinw", i), y>>>> :
                        x \in {<<0, 1>>, <<-1, 2>>, <<3, 8>>}, y \in {<<0, 1>>, <<1, 2>>, <<-3, 4>>, <<1, 1>>}}
EccForms == {[kind |-> "ecc", form |-> "default", n |-> 2, planets |-> <<>>, lims |-> <<>>],
             [kind |-> "ecc", form |-> "scalar", n |-> 3, planets |-> <<>>, lims |-> <<<<1, 2>>>>],
             [kind |-> "ecc", form |-> "scalar", n |-> 1, planets |-> <<>>, lims |-> <<<<3, 4>>>>],
             [kind |-> "ecc", form |-> "list", n |-> 0, planets |-> <<2>>, lims |-> <<<<1, 2>>>>],
             [kind |-> "ecc", form |-> "list", n |-> 0, planets |-> <<3, 1>>, lims |-> <<<<1, 4>>, <<3, 4>>>>],
             [kind |-> "ecc", form |-> "list", n |-> 0, planets |-> <<1, 2, 3>>, lims |-> <<<<1, 1>>, <<1, 4>>, <<1, 2>>>>]}
EccP == UNION {{One(b, p, UNION {EccPts(b, i) : i \in 1..3}) : p \in EccForms} : b \in Bases}

\* ---- amplitudes
KPts(b, i) == IF Has(b, "k") THEN {<<<<Key("k", i), x>>>> : x \in {<<-2, 1>>, <<-1, 128>>, <<0, 1>>, <<1, 2>>, <<9, 1>>}}
              ELSE {<<<<Key("logk", i), x>>>> : x \in {<<-2, 1>>, <<-1, 8>>, <<0, 1>>, <<2, 1>>}}
PosK == UNION {{One(b, [kind |-> "posk", n |-> n], UNION {KPts(b, i) : i \in 1..3}) : n \in 1..3} : b \in Bases}

\* ---- eclipse timing, user-defined, numerical
SecP == UNION {{One(b, [kind |-> "sec", planet |-> i, err |-> q], {}) : i \in {1, 3}, q \in {<<1, 8>>, <<2, 1>>}} : b \in Bases}
UserP == UNION {{One(b, [kind |-> "user", keys |-> ks, coef |-> <<<<2, 1>>, <<-5, 2>>, <<1, 4>>>>], {}) :
            ks \in {<<"jit_j">>, <<"gamma_j", "jit_j">>, <<Key(BasisKeys(b)[5], 2), "gamma_j", Key(BasisKeys(b)[3], 1)>>}} : b \in Bases}
NumP == UNION {{One(b, [kind |-> "num", keys |-> ks], {}) :
            ks \in {<<"jit_j">>, <<Key(BasisKeys(b)[4], 2)>>, <<Key(BasisKeys(b)[4], 2), Key(BasisKeys(b)[3], 1)>>}} :
            b \in {"per tc secosw sesinw k", "per tp e w k", "per tc se w k"}}

Init == c \in Simple \cup BaseP \cup EccP \cup PosK \cup SecP \cup UserP \cup NumP
Next == UNCHANGED c

\* ---- support decided exactly.  Default values of everything not on the lattice: e = 1/16 or
\* less, k = 3, so only lattice planets can violate.
DefE == <<1, 256>>
ValOr(pt, k, d) == IF \E j \in 1..Len(pt) : pt[j][1] = k
                   THEN pt[CHOOSE j \in 1..Len(pt) : pt[j][1] = k][2] ELSE d
EccSqOf(b, pt, i) ==
  LET key == CASE Has(b, "e") -> Key("e", i) [] Has(b, "se") -> Key("se", i)
               [] Has(b, "secosw") -> Key("secosw", i) [] Has(b, "ecosw") -> Key("ecosw", i)
  IN IF ~\E j \in 1..Len(pt) : pt[j][1] = key THEN <<0, 1>>
     ELSE CASE Has(b, "e") -> RSq(ValOr(pt, Key("e", i), Zero))
            [] Has(b, "se") -> RSq(RSq(ValOr(pt, Key("se", i), Zero)))
            [] Has(b, "secosw") -> RSq(RAdd(RSq(ValOr(pt, Key("secosw", i), Zero)), RSq(ValOr(pt, Key("sesinw", i), Zero))))
            [] Has(b, "ecosw") -> RAdd(RSq(ValOr(pt, Key("ecosw", i), Zero)), RSq(ValOr(pt, Key("esinw", i), Zero)))
InSupport(p, b, pt) ==
  CASE p.kind \in {"gauss", "user", "num", "sec", "base"} -> TRUE
    [] p.kind = "bounds" -> LET x == ValOr(pt, p.key, Zero) IN RLt(p.lo, x) /\ RLt(x, p.hi)
    [] p.kind \in {"jeff", "modjeff"} -> LET x == ValOr(pt, p.key, Zero) IN RLe(p.lo, x) /\ RLe(x, p.hi)
    [] p.kind = "ecc" -> LET pl == EccPlanets(p) IN \A j \in 1..Len(pl) :
          /\ RLe(EccSqOf(b, pt, pl[j]), RSq(EccLim(p, j)))
          /\ Has(b, "e") => RLe(Zero, ValOr(pt, Key("e", pl[j]), Zero))
    [] p.kind = "posk" -> \A i \in 1..p.n : Has(b, "k") => RLe(Zero, ValOr(pt, Key("k", i), <<3, 1>>))

\* facts: the support of a bounded prior is an interval, and planets a prior does not name
\* cannot exclude a point
Interval == c.p.kind \in {"bounds", "jeff", "modjeff"} =>
   \A x, y, z \in Lattice : (RLe(x, y) /\ RLe(y, z) /\ InSupport(c.p, c.b, <<<<c.p.key, x>>>>)
        /\ InSupport(c.p, c.b, <<<<c.p.key, z>>>>)) => InSupport(c.p, c.b, <<<<c.p.key, y>>>>)
Named == c.p.kind = "ecc" => \A i \in 1..3 : ~InSeq(i, EccPlanets(c.p)) =>
   \A pt \in EccPts(c.b, i) : InSupport(c.p, c.b, pt)
\* a point outside is excluded whichever basis expresses it (amplitude: never in a log basis)
LogAmp == (c.p.kind = "posk" /\ ~Has(c.b, "k")) => \A pt \in c.pts : InSupport(c.p, c.b, pt)

Emit == PrintT(ToJson([b |-> c.b, np |-> c.np, p |-> c.p, term |-> LogPrior(c.p, c.b), dens |-> Density(c.p, c.b),
   pts |-> {[set |-> pt, ok |-> InSupport(c.p, c.b, pt)] : pt \in c.pts}]))
ASSUME BasisFacts
=============================================================================
