------------------------------ MODULE CheckC18F -----------------------------
(* Equal-width bins over the range of the data (fastbin).  Positions are     *)
(* integers, the range is a multiple of the number of bins.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NBins, BinW, NObs, NRandom
VARIABLES x
Range == NBins * BinW
Rows(k) == [i \in 1..NObs |-> IF i = 1 THEN 0 ELSE IF i = 2 THEN Range
                              ELSE RandomElement(0..Range)]
Init == x \in {Rows(k) : k \in 1..NRandom}
Next == UNCHANGED x
\* the last bin is closed on the right
BinOf(i) == IF x[i] = Range THEN NBins ELSE x[i] \div BinW + 1
Members(b) == {i \in DOMAIN x : BinOf(i) = b}
\* bins with fewer than three members are not reported
Reported == {b \in 1..NBins : Cardinality(Members(b)) >= 3}
Partition == UNION {Members(b) : b \in 1..NBins} = DOMAIN x
Emit == PrintT(ToJson([x |-> x, nbins |-> NBins, binw |-> BinW,
                       bins |-> [b \in 1..NBins |-> IF b \in Reported THEN Members(b) ELSE {}]]))
=============================================================================
