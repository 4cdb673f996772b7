------------------------------ MODULE Compare ------------------------------
(* Comparing models: which alternatives a request for a set of features       *)
(* stands for, and the parameters of each.                                    *)
EXTENDS Catalog

Features == {"nplanets", "e", "trend", "jit", "gp"}
RangeOf(s) == {s[j] : j \in 1..Len(s)}
IsFree(c, k) == InSeq(k, c.free)
AnyFree(c, ks) == \E j \in 1..Len(ks) : IsFree(c, ks[j])

EccOf(c, i)  == MapSeq(EccKeys(c.basis), LAMBDA k : Key(k, i))
OrbOf(c, i)  == PlanetKeys(c.basis, i)
JitKeys(c)   == MapSeq(c.insts, JitKey)
HypOf(in)    == IF IsGP(in) THEN MapSeq(HypNames(in.kind), LAMBDA h : h \o in.hn) ELSE <<>>
RECURSIVE HypSeq(_)
HypSeq(l)    == IF l = <<>> THEN <<>> ELSE HypOf(Head(l)) \o HypSeq(Tail(l))
AmpKeys(c)   == {"gp_amp" \o c.insts[j].hn : j \in {m \in 1..Len(c.insts) : c.insts[m].kind \in {"QuasiPer", "Per", "SqExp"}}}

\* what can be switched off in c when the features req are compared
Switch(what, i) == [what |-> what, i |-> i]
Switches(c, req) ==
    (IF "gp" \in req /\ AmpKeys(c) # {} /\ AnyFree(c, HypSeq(c.insts)) THEN {Switch("gp", 0)} ELSE {})
    \cup (IF "jit" \in req /\ AnyFree(c, JitKeys(c)) THEN {Switch("jit", 0)} ELSE {})
    \cup (IF "trend" \in req THEN {Switch(k, 0) : k \in {x \in {"dvdt", "curv"} : IsFree(c, x)}} ELSE {})
    \cup (IF "nplanets" \in req THEN {Switch("planet", i) : i \in {j \in 1..c.np : AnyFree(c, OrbOf(c, j))}} ELSE {})
    \cup (IF "e" \in req THEN {Switch("ecc", i) : i \in {j \in 1..c.np : AnyFree(c, EccOf(c, j))}} ELSE {})

\* the quadratic term goes before the linear one; a planet that is not there has no eccentricity
Sensible(sw, off) ==
    /\ Switch("dvdt", 0) \in off /\ Switch("curv", 0) \in sw => Switch("curv", 0) \in off
    /\ \A x \in off : x.what = "ecc" => Switch("planet", x.i) \notin off
Alternatives(c, req) == LET sw == Switches(c, req) IN {off \in SUBSET sw : Sensible(sw, off)}

\* parameters held by a switch, and their null values
Held(c, x) == CASE x.what = "gp" -> RangeOf(HypSeq(c.insts))
                [] x.what = "jit" -> {k \in RangeOf(JitKeys(c)) : IsFree(c, k)}
                [] x.what = "dvdt" -> {"dvdt"}
                [] x.what = "curv" -> {"curv"}
                [] x.what = "planet" -> RangeOf(OrbOf(c, x.i))
                [] x.what = "ecc" -> RangeOf(EccOf(c, x.i))
Nulled(c, x) == CASE x.what = "gp" -> AmpKeys(c)
                  [] x.what = "planet" -> {Key(k, x.i) : k \in {m \in RangeOf(BasisKeys(c.basis)) : Slot(m) = 5}}
                  [] OTHER -> Held(c, x)
NullOf(c, x, k) == IF x.what = "jit" THEN "1e-6" ELSE IF x.what = "planet" /\ Has(c.basis, "logk") THEN "-inf" ELSE "0"
FreeIn(c, off) == SelectSeq(c.free, LAMBDA k : ~\E x \in off : k \in Held(c, x))
NullsIn(c, off) == UNION {{<<k, NullOf(c, x, k)>> : k \in Nulled(c, x)} : x \in off}

\* the features a fit reports as free
Feats(c, off) ==
  LET fr == RangeOf(FreeIn(c, off)) IN
    {<<"K", i>> : i \in {j \in 1..c.np : \E k \in fr : k \in {Key("k", j), Key("logk", j)}}}
    \cup {<<"e", i>> : i \in {j \in 1..c.np : EccOf(c, j)[1] \in fr}}
    \cup {<<k, 0>> : k \in fr \cap {"dvdt", "curv"}}
    \cup (IF fr \cap RangeOf(JitKeys(c)) # {} THEN {<<"jit", 0>>} ELSE {})
    \cup {<<k, 0>> : k \in fr \cap AmpKeys(c)}

\* ---- facts
Full(c, req) == {} \in Alternatives(c, req)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Count(sw) ==
  LET pl == {x.i : x \in {y \in sw : y.what = "planet"}}  ec == {x.i : x \in {y \in sw : y.what = "ecc"}} IN
    Pow(2, Cardinality(sw \cap {Switch("gp", 0), Switch("jit", 0)})) * (1 + Cardinality(sw \cap {Switch("dvdt", 0), Switch("curv", 0)}))
    * Pow(3, Cardinality(pl \cap ec)) * Pow(2, Cardinality((pl \cup ec) \ (pl \cap ec)))
EachOnce(c, req) == LET A == Alternatives(c, req) IN
    /\ Cardinality(A) = Count(Switches(c, req))
    /\ Cardinality({<<FreeIn(c, o), NullsIn(c, o)>> : o \in A}) = Cardinality(A)
OnlyRequested(c, req) == \A o \in Alternatives(c, req) :
    /\ RangeOf(FreeIn(c, o)) \subseteq RangeOf(c.free)
    /\ \A x \in o : RangeOf(FreeIn(c, o)) \cap Held(c, x) = {}
    /\ RangeOf(c.free) \ RangeOf(FreeIn(c, o)) = UNION {Held(c, x) : x \in o} \cap RangeOf(c.free)
    /\ o # {} => Len(FreeIn(c, o)) < Len(c.free)
Modular(c, r1, r2) == \* comparing less is comparing with the rest left on
    r1 \subseteq r2 => Alternatives(c, r1) = {o \in Alternatives(c, r2) : o \subseteq Switches(c, r1)}
=============================================================================
