------------------------------ MODULE Pipeline ------------------------------
(* One star's pipeline: what its status file and output files hold, and what   *)
(* each command-line step needs, reads, writes and refuses.                    *)
(* State:                                                                      *)
(*  fit, mcmc, ns, ic : whether the status records that step                   *)
(*  best : what the shared posterior file holds, "none", "fit" or "mcmc"       *)
(*  raw  : whether raw Markov chains were saved to continue from               *)
(*  der  : what the status records as derived: [run, of]                       *)
(*  dfile: what the file of derived parameters really holds: [of, stale]       *)
(*         (stale: the sampler's results have been replaced since)             *)
(*  plots: the types of plots recorded                                         *)
EXTENDS Integers, Sequences, FiniteSets
Start == [fit |-> FALSE, mcmc |-> FALSE, ns |-> FALSE, ic |-> FALSE, best |-> "none", raw |-> FALSE,
          der |-> [run |-> FALSE, of |-> "none"], dfile |-> [of |-> "none", stale |-> FALSE], plots |-> {}]
Has(s, sampler) == CASE sampler = "mcmc" -> s.mcmc [] sampler = "ns" -> s.ns [] OTHER -> FALSE
\* the sampler whose results a step reads; "none" if there are none to read
Pick(s, asked) == CASE asked # "auto" -> IF Has(s, asked) THEN asked ELSE "none"
                    [] s.mcmc -> "mcmc"
                    [] s.ns -> "ns"
                    [] OTHER -> "none"
\* the status says there are derived parameters of this sampler
Derived(s, sampler) == s.der.run /\ s.der.of = sampler
\* the posterior file of the sampler holds that sampler's estimates
Estimates(s, sampler) == sampler = "ns" \/ (sampler = "mcmc" /\ s.best = "mcmc")
\* a new run of a sampler: its results are replaced, what was derived from them is out of date
Resample(s, sampler) ==
   [s EXCEPT !.der.run = IF s.der.of = sampler THEN FALSE ELSE @,
             !.dfile.stale = IF s.dfile.of = sampler THEN TRUE ELSE @]
-----------------------------------------------------------------------------
(* Results: [s: the state after, out: "done", "refused" or "idle", parts: one  *)
(* entry per table or plot made, in order, sampler: whose results were read]   *)
Res(t, out, parts, sampler) == [s |-> t, out |-> out, parts |-> parts, sampler |-> sampler]
No(s) == Res(s, "refused", <<>>, "none")
Fit(s) == Res([s EXCEPT !.fit = TRUE, !.best = "fit"], "done", <<>>, "none")
(* modes: plain, save (keep raw chains), proceed (continue the saved ones),    *)
(* both, and fails (the sampler stops with an error)                           *)
Mcmc(s, mode) ==
   IF ~ s.fit \/ (mode \in {"proceed", "both"} /\ ~ s.raw) \/ mode = "fails" THEN No(s)
   ELSE Res([Resample(s, "mcmc") EXCEPT !.mcmc = TRUE, !.best = "mcmc",
                                        !.raw = @ \/ mode \in {"save", "both"}], "done", <<>>, "none")
(* nested sampling needs no fit; it does not replace results unless told to    *)
Ns(s, mode) ==
   IF mode = "fails" \/ (s.ns /\ mode = "plain") THEN No(s)
   ELSE Res([Resample(s, "ns") EXCEPT !.ns = TRUE], "done", <<>>, "none")
(* star: whether the setup gives the star's mass, without which nothing is     *)
(* derived                                                                     *)
Derive(s, asked, star) ==
   LET p == Pick(s, asked) IN
   IF p = "none" THEN No(s)
   ELSE IF ~ star THEN Res(s, "idle", <<>>, p)
   ELSE Res([s EXCEPT !.der = [run |-> TRUE, of |-> p], !.dfile = [of |-> p, stale |-> FALSE]], "done", <<>>, p)
Ic(s) == IF ~ s.fit THEN No(s) ELSE Res([s EXCEPT !.ic = TRUE], "done", <<>>, "none")
-----------------------------------------------------------------------------
(* Several plots or tables are made in the order given; the first one that     *)
(* cannot be made ends the step, those before it are made and recorded.        *)
PlotOk(s, asked, ty) ==
   LET p == Pick(s, asked) IN
   CASE ty = "rv" -> TRUE
     [] ty = "corner" -> p # "none"
     [] ty \in {"auto", "trend"} -> p = "mcmc"
     [] ty = "derived" -> s.der.run /\ asked \in {"auto", s.der.of}
     [] OTHER -> FALSE
TableOk(s, p, ty) ==
   CASE ty \in {"rv", "priors", "crit"} -> TRUE
     [] ty = "params" -> Estimates(s, p)
     [] ty = "derived" -> Derived(s, p) /\ Estimates(s, p)
     [] ty = "ic_compare" -> s.ic
     [] OTHER -> FALSE
\* the length of the longest prefix of types satisfying ok
RECURSIVE Upto(_, _)
Upto(ok, i) == IF i > Len(ok) \/ ~ ok[i] THEN i - 1 ELSE Upto(ok, i + 1)
Plot(s, types, asked) ==
   IF ~ s.fit THEN No(s)
   ELSE LET n == Upto([i \in 1..Len(types) |-> PlotOk(s, asked, types[i])], 1) IN
        Res([s EXCEPT !.plots = @ \cup {types[i] : i \in 1..n}],
            IF n = Len(types) THEN "done" ELSE "refused",
            [i \in 1..n |-> [type |-> types[i],
                             reads |-> CASE types[i] = "rv" -> "none"
                                         [] types[i] = "derived" -> s.der.of
                                         [] OTHER -> Pick(s, asked)]], Pick(s, asked))
Table(s, types, asked) ==
   LET p == Pick(s, asked) IN
   IF p = "none" THEN No(s)
   ELSE LET n == Upto([i \in 1..Len(types) |-> TableOk(s, p, types[i])], 1) IN
        Res(s, IF n = Len(types) THEN "done" ELSE "refused",
            [i \in 1..n |-> [type |-> types[i], reads |-> p, derived |-> Derived(s, p)]], p)
Report(s, asked) ==
   LET p == Pick(s, asked) IN
   IF p = "none" \/ s.plots = {} \/ ~ Estimates(s, p) THEN No(s)
   ELSE Res(s, "done", <<[type |-> "report", reads |-> p, derived |-> Derived(s, p)]>>, p)
-----------------------------------------------------------------------------
(* The comparisons `ic` makes: one over all the types together, one per type,  *)
(* or only the model itself; those made one per type are merged, models with   *)
(* the same free parameters counting once.                                     *)
Comparisons(c) == CASE c.simple -> << <<>> >>
                    [] c.mixed -> << c.types >>
                    [] OTHER -> [i \in 1..Len(c.types) |-> << c.types[i] >>]
Merged(c) == ~ c.simple /\ ~ c.mixed
FixJitters(c) == c.fixjitter /\ ~ c.simple
-----------------------------------------------------------------------------
(* Command-line options and the keyword each one sets; "" stands for a flag.   *)
McmcOptions == <<[opt |-> "--nsteps", key |-> "nrun", default |-> "10000", as |-> "float"],
  [opt |-> "--nwalkers", key |-> "nwalkers", default |-> "50", as |-> "int"],
  [opt |-> "--nensembles", key |-> "ensembles", default |-> "8", as |-> "int"],
  [opt |-> "--minAfactor", key |-> "minAfactor", default |-> "40", as |-> "float"],
  [opt |-> "--maxArchange", key |-> "maxArchange", default |-> "0.03", as |-> "float"],
  [opt |-> "--burnAfactor", key |-> "burnAfactor", default |-> "25", as |-> "float"],
  [opt |-> "--burnGR", key |-> "burnGR", default |-> "1.03", as |-> "float"],
  [opt |-> "--maxGR", key |-> "maxGR", default |-> "1.01", as |-> "float"],
  [opt |-> "--minTz", key |-> "minTz", default |-> "1000", as |-> "int"],
  [opt |-> "--minsteps", key |-> "minsteps", default |-> "1000", as |-> "int"],
  [opt |-> "--minpercent", key |-> "minpercent", default |-> "5", as |-> "float"],
  [opt |-> "--thin", key |-> "thin", default |-> "10", as |-> "int"],
  [opt |-> "--serial", key |-> "serial", default |-> "", as |-> "flag"],
  [opt |-> "--save", key |-> "save", default |-> "", as |-> "flag"],
  [opt |-> "--proceed", key |-> "proceed", default |-> "", as |-> "flag"],
  [opt |-> "--headless", key |-> "headless", default |-> "", as |-> "flag"]>>
(* values that may be given, besides the default                               *)
Values(o) == CASE o.as = "flag" -> {"1"}
               [] o.as = "int" -> {"7", "123"}
               [] OTHER -> {"3", "0.25", "1e3"}
(* key=value options of the samplers: what each text means                     *)
Texts == <<[text |-> "25", as |-> "int"], [text |-> "-3", as |-> "int"], [text |-> "0", as |-> "int"],
           [text |-> "0.5", as |-> "float"], [text |-> "1e-3", as |-> "float"], [text |-> "2.", as |-> "float"],
           [text |-> "True", as |-> "yes"], [text |-> "true", as |-> "yes"], [text |-> "FALSE", as |-> "no"],
           [text |-> "rwalk", as |-> "text"], [text |-> "None", as |-> "text"], [text |-> "a,b", as |-> "text"]>>
=============================================================================
