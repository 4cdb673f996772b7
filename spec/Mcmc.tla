-------------------------------- MODULE Mcmc --------------------------------
(* A Markov-chain run: ensembles of walkers advance together, `ci' steps at a *)
(* time; after each such round the run is checked, saved if asked, purged of  *)
(* its burn-in once, and ended when two consecutive checks find it mixed.     *)
(*                                                                           *)
(* What a check finds on the samples so far is an input of the machine: the   *)
(* verdict "low" (nothing met), "burn" (good enough to end the burn-in),      *)
(* "shaky" (every threshold but the change of the autocorrelation time), or   *)
(* "mixed" (all thresholds).  CheckC13 specifies how verdicts are computed.   *)
(* Steps are per walker.  A sample is named <<run, round>>.                   *)
EXTENDS Integers, Sequences

Verdicts == {"low", "burn", "shaky", "mixed"}

\* rounds a run of nrun steps takes (nearest, ties to even; at least one)
Rounds(nrun, ci) ==
  LET q == nrun \div ci  r == 2 * (nrun - q * ci) IN
  LET n == IF r < ci THEN q ELSE IF r > ci THEN q + 1
           ELSE IF q = 2 * (q \div 2) THEN q ELSE q + 1 IN
  IF n < 1 THEN 1 ELSE n

\* a fresh run, or one that continues from a saved file
Fresh == [round |-> 0, own |-> 0, nburn |-> 0, burned |-> FALSE, mix |-> 0, prev |-> "none",
          mixed |-> FALSE, kept |-> <<>>, shown |-> <<>>, auto |-> <<>>, end |-> "running",
          assessed |-> FALSE, trail |-> <<>>]
Continued(file) == [Fresh EXCEPT !.own = file.own, !.kept = file.kept, !.auto = file.auto,
                                 !.burned = file.burned, !.nburn = file.nburn]

\* is this check made at all: enough steps since the purge, or enough of the whole
Assessed(c, own, nburn) ==
  \/ own > c.minsteps
  \/ 100 * (nburn + own) >= c.minpercent * c.nrun

\* does the verdict end the burn-in
BurnMet(c, v) == CASE c.burn = "never" -> FALSE
                   [] c.burn = "gr"    -> TRUE            \* the G-R criterion is met from the start
                   [] c.burn = "auto"  -> v # "low"
\* is it mixed: a change of the autocorrelation time needs an earlier value
Mixed(c, m, v) == /\ v = "mixed" /\ m.prev # "none"
                  /\ c.block = "none"

\* the verdicts the next check can have
Inputs(c, m) == IF ~ Assessed(c, m.own + c.ci, m.nburn) THEN {"low"}
                ELSE {"low", "burn", "mixed"} \cup (IF m.prev = "mixed" THEN {"shaky"} ELSE {})

\* one round and its check
Round(c, m, run, v) ==
  LET own  == m.own + c.ci
      as   == Assessed(c, own, m.nburn)
      mxd  == as /\ Mixed(c, m, v)
      mix  == IF mxd THEN m.mix + 1 ELSE 0
      all  == Append(m.kept, <<run, m.round + 1>>)
      purge == ~ m.burned /\ as /\ BurnMet(c, v)
      auto == IF as /\ m.burned THEN Append(m.auto, [own |-> own, v |-> v, run |-> run]) ELSE m.auto
      last == m.round + 1 = Rounds(c.nrun, c.ci)
  IN [round |-> m.round + 1,
      own   |-> IF purge THEN 0 ELSE own,
      nburn |-> IF purge THEN m.nburn + own ELSE m.nburn,
      burned |-> m.burned \/ purge,
      mix |-> mix, mixed |-> mxd,
      prev |-> IF as THEN v ELSE m.prev,
      kept |-> IF purge THEN <<>> ELSE all,
      shown |-> all,                       \* what the result shows if the run ends here
      auto |-> auto,
      assessed |-> as,
      end |-> IF mix >= 2 THEN "mixed" ELSE IF last THEN "steps" ELSE "running",
      trail |-> Append(m.trail, [v |-> v, as |-> as, own |-> own, mixed |-> mxd, purge |-> purge,
                                done |-> m.nburn + own])]        \* done: what the progress display says

\* the file a round leaves: the state at the check, before any purge
Saved(c, m, n) == [own |-> n.trail[Len(n.trail)].own, kept |-> n.shown, burned |-> m.burned,
                   nburn |-> m.nburn, auto |-> n.auto]
\* walkers taken: those asked for, but at least twice the number of free parameters
Walkers(asked, free) == IF asked < 2 * free THEN 2 * free ELSE asked
=============================================================================
