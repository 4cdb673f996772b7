------------------------------ MODULE CheckC20 ------------------------------
EXTENDS Derived, Json
CONSTANTS Thorough
VARIABLES c

(* --- single functions ---------------------------------------------------- *)
Args == {"k", "p", "m", "e"}
Regimes == {"tiny", "small", "near", "over", "equal", "large", "extreme"}
Units == {"jupiter", "earth", "Jupiter", "EARTH"}
\* which of the arguments are given as one number for all samples; lists, series
Containers == {"array", "scalars", "list", "series", "numpy0"}
Amp == [kind : {"amp"}, scalar : SUBSET Args, regime : Regimes \cup {"mixed"}, unit : Units,
        cont : Containers, ecc : {"zero", "mid", "high"}]
AmpOk(x) == /\ (x.cont = "array") \/ x.scalar = {}
            /\ (x.regime = "mixed") => "k" \notin x.scalar /\ x.cont # "scalars" /\ x.cont # "numpy0"
            /\ Thorough \/ x.unit \in {"jupiter", "earth"} \/ x.scalar = {}
\* exact solutions of Kepler's third law in (years, solar masses, au)
Kep3 == {x \in [kind : {"kep3"}, a : 1..40, p : 1..64, m : 1..12] : x.p * x.p * x.m = x.a * x.a * x.a}
\* densities in units of that of the reference body
Rho == [kind : {"rho"}, r : 1..4, m : 1..12, unit : Units, cont : Containers]

(* --- the whole derive step ----------------------------------------------- *)
Derive == [kind : {"derive"}, basis : Bases, np : 1..2, sampler : {"mcmc", "ns"},
           ask : {"auto", "named"}, fixed : {"none", "shape", "period", "planet1"},
           planet : {"none", "one", "all"}, scatter : {"exact", "spread", "poor"},
           regime : {"small", "heavy"}, both : BOOLEAN]
DeriveOk(x) == /\ x.both => x.ask = "named"
               /\ x.planet # "all" \/ x.np = 2
               /\ Thorough \/ x.sampler = "mcmc" \/ x.fixed \in {"none", "planet1"}
               /\ x.fixed = "planet1" => x.np = 2
               \* a poorly known star: the part of its distribution below zero is folded back
               /\ x.scatter = "poor" => x.regime = "small"
               /\ Thorough \/ (x.regime = "heavy") = (x.planet = "one")
               /\ Thorough \/ (x.scatter = "exact") = (x.fixed \in {"none", "period"})
               /\ Thorough \/ x.basis = "per tc secosw sesinw k" \/ x.sampler = "mcmc"
Init == \/ c \in {x \in Amp : AmpOk(x)} \/ c \in Kep3 \/ c \in Rho \/ c \in {x \in Derive : DeriveOk(x)}
Next == UNCHANGED c
\* the radius-known planets
Rocky(x) == IF x.planet = "none" THEN {} ELSE IF x.planet = "one" THEN {1} ELSE {1, 2}
Columns(x) == UNION {{<<"mpsini", i>>, <<"a", i>>, <<"musini", i>>} \cup
                     (IF i \in Rocky(x) THEN {<<"rhop", i>>} ELSE {}) : i \in 1..x.np}
\* every planet's quantities read only that planet's keys
OwnKeys == c.kind = "derive" => \A i \in 1..c.np :
   /\ VarsOf(PerOf(c.basis, i)) \cup VarsOf(KOf(c.basis, i)) \cup VarsOf(EOf(c.basis, i))
        \subseteq {PlanetKeys(c.basis, i)[j] : j \in 1..5}
Emit == PrintT(ToJson(
  IF c.kind = "derive"
  THEN [cfg |-> c, cols |-> {k[1] \o ToString(k[2]) : k \in Columns(c)},
        elems |-> [i \in 1..c.np |-> [per |-> PerOf(c.basis, i), k |-> KOf(c.basis, i),
                                      e |-> EOf(c.basis, i)]]]
  ELSE [cfg |-> c]))
M == Vr("m")  Kk == Vr("k")  Pd == Vr("p")  Ms == Vr("ms")  Ee == Vr("e")
ASSUME PrintT(ToJson([terms |-> [
   amp |-> SemiAmp(M, Pd, Ms, Ee), light |-> MassLight(Kk, Pd, Ms, Ee),
   si |-> AmpSI(M, Pd, Ms, Ee), semi |-> Semi(Pd, Ms), rho |-> Density(M, Vr("r"))]]))
=============================================================================
