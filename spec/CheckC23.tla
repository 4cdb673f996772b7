------------------------------ MODULE CheckC23 ------------------------------
(* A maximum a posteriori fit: an optimiser evaluates the posterior at points *)
(* of its choosing and finally answers one; wherever it looked last, the fit  *)
(* ends at the answer.                                                        *)
EXTENDS Catalog, Priors, Json
CONSTANTS Depth, Points
VARIABLES seen,     \* points evaluated, in order (0 is the start)
          at,       \* the point the posterior stands at
          answer    \* -1 until the optimiser has answered
vars == <<seen, at, answer>>
Init == seen = <<>> /\ at = 0 /\ answer = -1
Evaluate(p) == /\ answer = -1 /\ Len(seen) < Depth
               /\ seen' = Append(seen, p) /\ at' = p /\ UNCHANGED answer
Answer(p) == /\ answer = -1 /\ answer' = p /\ at' = p /\ UNCHANGED seen
Next == \E p \in Points : Evaluate(p) \/ Answer(p)
Spec == Init /\ [][Next]_vars
\* the outcome depends on the answer alone
EndsAtAnswer == answer # -1 => at = answer
HistoryFree == [][answer' # -1 => at' = answer']_vars
Emit == answer # -1 => PrintT(ToJson([seen |-> seen, answer |-> answer]))
ASSUME \A i \in 1..Len(Catalogue), m \in {"all", "alternate", "one", "tail"} : LET c == WithFree(Catalogue[i], m)
   p == [kind |-> "gauss", key |-> JitKey(c.insts[1]), mu |-> <<3, 2>>, sig |-> <<4, 1>>] IN
   PrintT(ToJson([cfg |-> c, mode |-> m, prior |-> p, ll |-> LogLike(c), lp |-> LogPrior(p, c.basis)]))
=============================================================================
