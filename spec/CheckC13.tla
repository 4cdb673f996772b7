------------------------------ MODULE CheckC13 ------------------------------
EXTENDS Converge, Json, FiniteSets
CONSTANTS Thorough
VARIABLE x
Vals == {0, 1, 3}
Seqs(L) == [1..L -> Vals]
\* every set of ensembles of small integer samples (the first one sorted up to relabelling)
Lattice == [kind : {"lattice"}, c : [1..1 -> Seqs(3)]] \cup [kind : {"lattice"}, c : [1..2 -> Seqs(3)]]
           \cup (IF Thorough THEN [kind : {"lattice"}, c : [1..3 -> Seqs(2)] \cup [1..2 -> Seqs(4)]]
                 ELSE [kind : {"lattice"}, c : [1..3 -> [1..2 -> {0, 1}]]])
\* how each criterion stands over the parameters: met by all, all but one, none, or it
\* cannot be computed for one of them (an autocorrelation time that is not a number)
Stand == {"all", "some", "none", "undefined"}
Crits == {"gr", "tz", "factor", "change"}
Pattern == [kind : {"pattern"}, n : 1..4, nd : 1..3, st : [Crits -> Stand],
            how : {"iid", "offset", "drift", "equal", "stuck"}]
PatternOk(p) == /\ p.st["gr"] # "undefined" /\ p.st["tz"] # "undefined"
                /\ (\E k \in Crits : p.st[k] = "some") => p.nd > 1
                /\ p.st["gr"] = "some" => p.n > 1 /\ p.how # "equal"
                /\ p.st["tz"] = "some" => p.n > 1 /\ p.how \in {"offset", "drift"}
                /\ p.how = "stuck" => \A k \in Crits : p.st[k] \notin {"some", "undefined"}
                /\ Thorough \/ Cardinality({k \in Crits : p.st[k] # "all"}) <= 1
Init == x \in Lattice \/ x \in {p \in Pattern : PatternOk(p)}
Next == UNCHANGED x
\* a run counts as mixed only if every parameter satisfies all the thresholds
\* (a parameter that never moves in any ensemble is not mixed)
Verdict(p) == p.how # "stuck" /\ \A k \in Crits : p.st[k] = "all" \/ (k = "tz" /\ p.n = 1)

(* properties of the statistics on the lattice *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Shift(c, d) == [i \in 1..Len(c) |-> [j \in 1..Len(c[i]) |-> c[i][j] + d]]
Relabelled == x.kind = "lattice" => /\ GR2(Rev(x.c)) = GR2(x.c) /\ TzFrac(Rev(x.c)) = TzFrac(x.c)
                                    /\ GR2([i \in 1..Len(x.c) |-> Rev(x.c[i])]) = GR2(x.c)
                                    /\ GR2(Shift(x.c, 5)) = GR2(x.c)
\* GR^2 is at least 1 - 1/L, and equals it exactly when the ensembles have one mean
Bound == x.kind = "lattice" => LET g == GR2(x.c) L == Len(x.c[1]) IN
   g.is = "finite" => /\ g.num * L >= g.den * (L - 1)
                      /\ (g.num * L = g.den * (L - 1)) = (Mn(x.c) = 0 \/ Len(x.c) = 1)
Draws == x.kind = "lattice" /\ Len(x.c) > 1 => LET t == TzFrac(x.c) IN
   /\ t.is # "infinite"
   /\ t.is = "finite" => t.num > 0 /\ t.num <= t.den
Emit == PrintT(ToJson(IF x.kind = "lattice" THEN [c |-> x.c, gr2 |-> GR2(x.c), tz |-> TzFrac(x.c)]
                      ELSE [p |-> x, verdict |-> Verdict(x)]))
ASSUME PrintT(ToJson([terms |-> [n \in 1..4 |-> [gr |-> GR(n), tz |-> Tz(n), good |-> Good(n)]],
                      factor |-> Factor, change |-> Change]))
=============================================================================
