------------------------------ MODULE CheckC06 ------------------------------
(* Conjunctions, periastron and anomalies.                                   *)
EXTENDS Keplerian, Json, TLC, Integers
CONSTANTS Thorough
VARIABLES c

Tp == Vr("tp")  Tc == Vr("tc")  Pr == Vr("per")  Ec == Vr("e")  Om == Vr("w")  T == Vr("t")

\* the anomalies at time t
MeanAnom == Mul(TwoPi, Div(Sub(T, Tp), Pr))
EccA == KepE(MeanAnom, Ec)
CosNu == Div(Sub(Cos(EccA), Ec), Sub(N(1), Mul(Ec, Cos(EccA))))
SinNu == Div(Mul(Sqrt(Sub(N(1), Sqr(Ec))), Sin(EccA)), Sub(N(1), Mul(Ec, Cos(EccA))))

EKinds == {"zero", "tiny", "small", "mid", "high", "extreme", "edge"}
WKinds == {"mpi", "mhalf", "zero", "half", "pi", "threehalf", "twopi", "generic", "negative", "big"}
Shapes == {"float", "float64", "array", "elements", "series", "one"}
TBases == {"zero", "jd"}
Configs == [e : EKinds, w : WKinds, shape : Shapes, tb : TBases, kind : {"general"}]
\* Circular orbits on a lattice of 15 degree steps: everything is an exact rational.
Grid == [kind : {"exact"}, per : {1, 4, 24, 360}, deg : {15 * q : q \in -24..36}]
Init == c \in Configs \cup Grid
Next == UNCHANGED c

\* degrees reduced to (-180, 180] and to [0, 360)
Deg360(d) == ((d % 360) + 360) % 360
Deg180(d) == IF Deg360(d) > 180 THEN Deg360(d) - 360 ELSE Deg360(d)
\* time since periastron, in units of per/360
ExactTransit(d) == Deg180(90 - d)
ExactEclipse(d) == Deg360(270 - d)

\* facts: the eclipse is half a period from transit on a circular orbit, the two conversions
\* are inverses, and both events are where they should be
HalfApart == c.kind = "exact" => Deg360(ExactEclipse(c.deg) - ExactTransit(c.deg)) = 180
AtNinety == c.kind = "exact" => Deg360(ExactTransit(c.deg) + c.deg) = 90
AtTwoSeventy == c.kind = "exact" =>
    Deg360(ExactEclipse(c.deg) + c.deg) = 270 /\ ExactEclipse(c.deg) \in 0..359
Emit == IF c.kind = "exact"
        THEN PrintT(ToJson([cfg |-> c, transit |-> ExactTransit(c.deg),
                            eclipse |-> ExactEclipse(c.deg)]))
        ELSE PrintT(ToJson([cfg |-> c]))
\* the terms, once
ASSUME PrintT(ToJson([terms |-> [
    tp_of_tc |-> TpOfTc(Tc, Pr, Ec, Om),
    tc_of_tp |-> TcOfTp(Tp, Pr, Ec, Om),
    sec_of_tp |-> Add(Tp, Mod(SincePeri(FSec(Om), Pr, Ec), Pr)),
    cosnu |-> CosNu, sinnu |-> SinNu, mean |-> MeanAnom]]))
=============================================================================
