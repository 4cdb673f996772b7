------------------------------ MODULE CheckC08 ------------------------------
(* Prior transforms and the split of a posterior for nested sampling.         *)
EXTENDS Catalog, Priors, Json
CONSTANTS Thorough
VARIABLES c

Modes == {"all", "alternate", "one", "tail"}

\* the j-th way of giving a parameter one transforming prior
OneOf(j, k) == CASE j = 0 -> [kind |-> "gauss", key |-> k, mu |-> <<3, 2>>, sig |-> <<1, 4>>]
                 [] j = 1 -> [kind |-> "bounds", key |-> k, lo |-> <<1, 8>>, hi |-> <<9, 4>>]
                 [] j = 2 -> [kind |-> "jeff", key |-> k, lo |-> <<1, 2>>, hi |-> <<3, 1>>]
                 [] j = 3 -> [kind |-> "modjeff", key |-> k, lo |-> <<1, 4>>, hi |-> <<2, 1>>, knee |-> <<-1, 2>>]
                 [] j = 4 -> [kind |-> "ubox", keys |-> <<k>>, lo |-> <<1, 2>>, hi |-> <<5, 2>>]
                 [] j = 5 -> [kind |-> "num", keys |-> <<k>>]
EccBounds(k) == [kind |-> "bounds", key |-> k, lo |-> <<0, 1>>, hi |-> <<3, 5>>]
IsEcc(b, k) == \E i \in 1..3 : k \in {Key(e, i) : e \in {"e", "se", "secosw", "sesinw", "ecosw", "esinw"}}
Base(cf, rot) == [j \in 1..Len(cf.free) |->
    IF IsEcc(cf.basis, cf.free[j]) THEN EccBounds(cf.free[j]) ELSE OneOf((j + rot) % 6, cf.free[j])]
Reverse(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
XG(k) == [kind |-> "xg", key |-> k, mu |-> <<1, 2>>, sig |-> <<2, 1>>]
\* (an analytically profiled offset has no value of its own)
FixedOwn(cf) == SelectSeq(FixedKeys(cf), LAMBDA k : k \notin {"gamma_j", "gamma_k"})
FixedOr(cf) == LET fx == FixedOwn(cf) IN IF fx = <<>> THEN cf.free[1] ELSE fx[Len(fx)]
Extras(cf) == <<[kind |-> "ecc", form |-> "scalar", n |-> cf.np, planets |-> <<>>, lims |-> <<<<1, 4>>>>],
                [kind |-> "posk", n |-> cf.np],
                [kind |-> "sec", planet |-> 1, err |-> <<1, 2>>],
                XG(cf.free[1]), XG(FixedOr(cf))>>
Multi(cf) == [kind |-> "user", keys |-> IF Len(cf.free) >= 2 THEN <<cf.free[1], cf.free[2]>>
                                        ELSE <<cf.free[1], cf.free[1]>>,
              coef |-> <<<<1, 1>>, <<1, 2>>>>]

Variants(cf, rot) ==
  LET b == Base(cf, rot)  n == Len(b)  fx == FixedKeys(cf)  fo == FixedOwn(cf) IN
    (IF n < 2 THEN {} ELSE {<<"joint", Append(SubSeq(b, 3, n), Multi(cf))>>,
       <<"joint samples", Append(SubSeq(b, 3, n), [kind |-> "num", keys |-> <<cf.free[1], cf.free[2]>>])>>})
    \cup {<<"valid", b>>, <<"reversed", Reverse(b)>>, <<"extras", b \o Extras(cf)>>,
     <<"extras first", Extras(cf) \o Reverse(b)>>, <<"none", <<>>>>, <<"only extras", Extras(cf)>>,
     <<"multi", Append(b, Multi(cf))>>, <<"second user", Append(b, OneOf(4, cf.free[n]))>>,
     <<"extra first", <<[kind |-> "posk", n |-> 1]>> \o b>>}
    \cup {<<"drop", Drop(b, j)>> : j \in {1, n}}
    \cup {<<"twice", Append(b, OneOf(j, cf.free[1]))>> : j \in {0, 1, 5}}
    \cup {<<"replaced", Append(Drop(b, 1), OneOf(j, b[1].key))>> : j \in IF "key" \in DOMAIN b[1] THEN {0, 4, 5} ELSE {}}
    \cup {<<"constraint for transform", Append(Drop(b, 1), XG(cf.free[1]))>>}
    \cup (IF fo = <<>> THEN {} ELSE
       {<<"fixed constraint first", <<XG(fo[Len(fo)])>> \o Append(b, OneOf(1, fo[Len(fo)]))>>,
        <<"fixed constraint last", <<OneOf(0, fo[Len(fo)])>> \o Append(b, XG(fo[Len(fo)]))>>,
        <<"fixed constraint", Append(b, XG(fo[Len(fo)]))>>})
    \cup (IF fx = <<>> THEN {} ELSE {<<"fixed", Append(b, OneOf(j, fx[Len(fx)]))>> : j \in {1, 4, 5}})

Configs == UNION {UNION {{[cfg |-> WithFree(Catalogue[i], m), what |-> v[1], priors |-> v[2]] :
              v \in Variants(WithFree(Catalogue[i], m), r)} :
              m \in Modes, r \in IF Thorough THEN 0..5 ELSE {i % 6, (i + 3) % 6}} : i \in 1..Len(Catalogue)}
Init == c \in Configs
Next == UNCHANGED c

Fr == FreeKeys(c.cfg)
Ok == Proper(c.priors, {Fr[j] : j \in 1..Len(Fr)})
\* facts: order never matters, an extra constraint never makes a run (im)proper
OrderFree == Proper(Reverse(c.priors), {Fr[j] : j \in 1..Len(Fr)}) = Ok
ExtraFree == Proper(c.priors \o Extras(c.cfg), {Fr[j] : j \in 1..Len(Fr)}) = Ok
OnePer == Ok => Cardinality({j \in 1..Len(c.priors) : ~Extra(c.priors[j])}) = Len(Fr)
Owner(k) == CHOOSE j \in Transforms(c.priors, k) : TRUE
Emit == PrintT(ToJson([cfg |-> c.cfg, what |-> c.what, priors |-> c.priors, ok |-> Ok, free |-> Fr,
   owner |-> IF Ok THEN [j \in 1..Len(Fr) |-> Owner(Fr[j])] ELSE <<>>,
   quant |-> IF Ok THEN [j \in 1..Len(Fr) |-> LET p == c.priors[Owner(Fr[j])] IN
                IF p.kind \in Transformable THEN Quantile(p) ELSE N(0)] ELSE <<>>,
   lp |-> [j \in 1..Len(c.priors) |-> LogPrior(c.priors[j], c.cfg.basis)],
   extra |-> [j \in 1..Len(c.priors) |-> Extra(c.priors[j])],
   ll |-> IF Ok THEN LogLike(c.cfg) ELSE N(0)]))
\* one-dimensional transforms on their own
Wide(j, k) == CASE j = 5 -> [kind |-> "gauss", key |-> k, mu |-> <<-20000, 1>>, sig |-> <<3000, 1>>]
                [] j = 6 -> [kind |-> "bounds", key |-> k, lo |-> <<-5000, 1>>, hi |-> <<20000, 1>>]
                [] j = 7 -> [kind |-> "jeff", key |-> k, lo |-> <<1, 1000>>, hi |-> <<100000, 1>>]
                [] j = 8 -> [kind |-> "modjeff", key |-> k, lo |-> <<0, 1>>, hi |-> <<50000, 1>>, knee |-> <<-1, 1>>]
                [] j = 9 -> [kind |-> "bounds", key |-> k, lo |-> <<-3, 1>>, hi |-> <<-1, 2>>]
                [] OTHER -> OneOf(j, k)
ASSUME \A j \in 0..9 : LET p == Wide(j, "jit_j") IN
  PrintT(ToJson([single |-> p, quant |-> Quantile(p), cdf |-> Cdf(p)]))
ASSUME BasisFacts
=============================================================================
