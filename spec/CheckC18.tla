------------------------------ MODULE CheckC18 ------------------------------
(* Binning in time: a walk over the measurements that opens a bin at the     *)
(* earliest measurement not yet binned and closes it when the width is used  *)
(* up.  Times are integers (half units), so bin boundaries are exact.        *)
EXTENDS Terms, Json, FiniteSets
CONSTANTS NObs, MaxT, Widths, Tels, NRandom, NBig
VARIABLES kind, obs, width, open, bins, left

vars == <<kind, obs, width, open, bins, left>>

(* --- greedy binning of each instrument ----------------------------------- *)
Earliest(S) == CHOOSE i \in S : \A j \in S : obs[i].t <= obs[j].t
Members(i, S) == {j \in S : obs[j].tel = obs[i].tel /\ obs[j].t < obs[i].t + width}
Small == [1..NObs -> [t : 0..MaxT, tel : Tels]]
\* larger tables, drawn at random by TLC
Big(k) == [i \in 1..NBig |-> [t |-> RandomElement(0..(2 * NBig)), tel |-> RandomElement(Tels)]]
Init == /\ \/ kind = "small" /\ obs \in Small
           \/ kind = "big" /\ obs \in {Big(k) : k \in 1..NRandom}
        /\ width \in Widths
        /\ open = 0 /\ bins = <<>> /\ left = DOMAIN obs
\* earliest of one instrument: instruments are walked in the order they first appear
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Bin == /\ left # {}
       /\ LET tel == obs[First(left)].tel
              mine == {j \in left : obs[j].tel = tel}
              m == Members(Earliest(mine), mine)
          IN bins' = Append(bins, m) /\ left' = left \ m
       /\ UNCHANGED <<kind, obs, width, open>>
Next == Bin
\* --- what the walk guarantees -------------------------------------------- *)
Partition == /\ UNION {bins[b] : b \in DOMAIN bins} \cup left = DOMAIN obs
             /\ \A a, b \in DOMAIN bins : a # b => bins[a] \cap bins[b] = {}
             /\ \A b \in DOMAIN bins : bins[b] \cap left = {} /\ bins[b] # {}
OneInstrument == \A b \in DOMAIN bins : \A i, j \in bins[b] : obs[i].tel = obs[j].tel
Width == \A b \in DOMAIN bins : \A i, j \in bins[b] : obs[i].t - obs[j].t < width
\* bins of one instrument do not interleave, and equal times are never separated
Ordered == \A a, b \in DOMAIN bins : \A i \in bins[a], j \in bins[b] :
    a < b /\ obs[i].tel = obs[j].tel => obs[i].t < obs[j].t
Emit == left = {} => PrintT(ToJson([kind |-> kind, obs |-> obs, width |-> width, bins |-> bins]))

(* --- the values of a bin with members w, t, y ---------------------------- *)
Wt == Div(N(1), Sqr(Vr("err")))
ASSUME PrintT(ToJson([terms |-> [
    time |-> Div(Sum(Mul(Wt, Vr("t"))), Sum(Wt)),
    value |-> Div(Sum(Mul(Wt, Vr("y"))), Sum(Wt)),
    err |-> Div(N(1), Sqrt(Sum(Wt))),
    \* equal-width bins of a folded curve: the mean and its standard error
    fmean |-> Mean(Vr("y")),
    ferr |-> Sqrt(Div(Sub(Mean(Sqr(Vr("y"))), Sqr(Mean(Vr("y")))), Len1(Vr("y"))))]]))
=============================================================================
