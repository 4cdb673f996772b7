------------------------------ MODULE CheckC11 ------------------------------
EXTENDS Mcmc, Json, TLC
CONSTANTS Thorough
VARIABLES c, m
vars == <<c, m>>
Runs == {r \in [ci : {1, 2, 3, 5}, nrun : {1, 3, 6, 8, 10, 13, 15}, minsteps : {0, 4, 7, 100},
                minpercent : {0, 50, 1000}, burn : {"never", "gr", "auto"},
                block : {"none", "gr", "tz"}] :
           /\ Rounds(r.nrun, r.ci) <= 5
           /\ r.minpercent # 0 \/ r.minsteps \in {0, 100}
           /\ r.block = "none" \/ (Rounds(r.nrun, r.ci) <= 3 /\ r.burn # "gr")
           /\ Thorough \/ <<r.ci, r.nrun>> \in {<<1, 3>>, <<2, 10>>, <<3, 8>>, <<3, 13>>, <<5, 1>>,
                                                <<5, 13>>, <<2, 8>>, <<3, 15>>}}
Init == c \in Runs /\ m = Fresh
Next == /\ m.end = "running"
        /\ \E v \in Inputs(c, m) : m' = Round(c, m, 1, v)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

T == m.trail
\* stops as mixed only after two consecutive checks that found it mixed, each made late enough
TwoInARow == m.end = "mixed" => /\ Len(T) >= 2
                                /\ \A i \in {Len(T) - 1, Len(T)} : T[i].as /\ T[i].mixed
LateEnough == \A i \in 1..Len(T) : T[i].mixed =>
   T[i].own > c.minsteps \/ 100 * i * c.ci >= c.minpercent * c.nrun
NeverTooLong == Len(T) <= Rounds(c.nrun, c.ci) /\ (Len(T) - 1) * c.ci <= c.nrun
\* nothing drawn before the purge is kept, everything since is, in order, and the purge is once
Purges == {i \in 1..Len(T) : T[i].purge}
Kept == LET from == IF Purges = {} THEN 0 ELSE CHOOSE i \in Purges : TRUE IN
        m.kept = [j \in 1..(Len(T) - from) |-> <<1, from + j>>]
OncePurged == \A i, j \in Purges : i = j
PurgeNamed == Purges # {} <=> m.burned
BurnNever == c.burn = "never" => Purges = {}
Shown == m.end # "running" /\ Purges # {} /\ Purges # {Len(T)} => m.shown = m.kept
\* the progress shown counts every step once, whatever was discarded
Progress == \A i \in 1..Len(T) : T[i].done = i * c.ci
Ends == <>(m.end # "running")
Emit == m.end # "running" => PrintT(ToJson([cfg |-> c, m |-> m, rounds |-> Rounds(c.nrun, c.ci)]))
=============================================================================
