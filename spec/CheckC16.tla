------------------------------ MODULE CheckC16 ------------------------------
(* Part "steps": every step from every state of one star's pipeline.           *)
(* Part "options": every choice of up to two command-line options.             *)
EXTENDS Pipeline, Json, TLC
CONSTANTS Part, HasStar, Wide
VARIABLES st, last
vars == <<st, last>>
Samplers == {"auto", "mcmc", "ns"}
PlotTypes == {"rv", "corner", "auto", "trend", "derived"}
TableTypes == {"params", "priors", "rv", "ic_compare", "derived", "crit"}
Pairs(T) == {<<a, b>> : a \in T, b \in T}
PlotLists == {<<a>> : a \in PlotTypes} \cup
             {<<"rv", "auto">>, <<"corner", "derived">>, <<"derived", "trend">>, <<"auto", "rv">>} \cup
             (IF Wide THEN Pairs(PlotTypes) ELSE {})
TableLists == {<<a>> : a \in TableTypes} \cup
              {<<"ic_compare", "derived">>, <<"ic_compare", "params">>, <<"rv", "derived">>, <<"params", "ic_compare">>,
               <<"derived", "crit">>, <<"ic_compare", "crit">>} \cup
              (IF Wide THEN Pairs(TableTypes) ELSE {})
IcCases == {[types |-> t, mixed |-> m, fixjitter |-> f, simple |-> x] :
              t \in {<<"trend">>, <<"e">>, <<"trend", "e">>, <<"e", "jit">>, <<"nplanets", "trend">>, <<"jit", "trend">>},
              m \in BOOLEAN, f \in BOOLEAN, x \in BOOLEAN}
Acts == {[step |-> "fit"]} \cup
        {[step |-> "mcmc", mode |-> m] : m \in {"plain", "save", "proceed", "both", "fails"}} \cup
        {[step |-> "ns", mode |-> m] : m \in {"plain", "overwrite", "proceed", "fails"}} \cup
        {[step |-> "derive", asked |-> a] : a \in Samplers} \cup
        {[step |-> "ic"]} \cup
        {[step |-> "plot", types |-> t, asked |-> a] : t \in PlotLists, a \in Samplers} \cup
        {[step |-> "table", types |-> t, asked |-> a] : t \in TableLists, a \in Samplers} \cup
        {[step |-> "report", asked |-> a] : a \in Samplers}
Run(s, a) == CASE a.step = "fit" -> Fit(s)
               [] a.step = "mcmc" -> Mcmc(s, a.mode)
               [] a.step = "ns" -> Ns(s, a.mode)
               [] a.step = "derive" -> Derive(s, a.asked, HasStar)
               [] a.step = "ic" -> Ic(s)
               [] a.step = "plot" -> Plot(s, a.types, a.asked)
               [] a.step = "table" -> Table(s, a.types, a.asked)
               [] OTHER -> Report(s, a.asked)
\* plots matter to later steps only by being there or not
Seen(s) == [s EXCEPT !.plots = IF @ = {} THEN {} ELSE {"some"}]
Init == st = Start /\ last = <<>>
Next == /\ Part = "steps"
        /\ \E a \in Acts : LET r == Run(st, a) IN
             /\ st' = Seen(r.s)
             /\ last' = [do |-> a, out |-> r.out, parts |-> r.parts, sampler |-> r.sampler]
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT(ToJson([f |-> st, a |-> last', t |-> st']))
-----------------------------------------------------------------------------
\* the status never promises what is not so
Sound == /\ st.best = "none" <=> ~ st.fit
         /\ st.mcmc => st.fit
         /\ st.best = "mcmc" => st.mcmc
         /\ st.raw => st.mcmc
         /\ st.der.run => /\ Has(st, st.der.of)
                          /\ st.dfile = [of |-> st.der.of, stale |-> FALSE]
\* nothing is made from derived parameters that are out of date or another sampler's
Current == \A a \in Acts : LET r == Run(st, a) IN
   \A i \in 1..Len(r.parts) :
      LET p == r.parts[i] IN
      /\ a.step \in {"table", "report"} /\ p.derived => st.dfile = [of |-> p.reads, stale |-> FALSE]
      /\ p.type = "derived" => st.dfile = [of |-> p.reads, stale |-> FALSE]
      /\ a.step \in {"table", "report", "derive"} /\ a.asked # "auto" => p.reads = a.asked
      /\ p.reads # "none" => Has(st, p.reads)
\* a step that was refused changed nothing but the plots made before
Gates == [][(last'.out # "done") => [st' EXCEPT !.plots = st.plots] = st]_vars
\* a step touches its own records only
Parts == [][LET k == last'.do.step IN
   /\ k # "fit" => st'.fit = st.fit
   /\ k # "mcmc" => st'.mcmc = st.mcmc /\ st'.raw = st.raw
   /\ k # "ns" => st'.ns = st.ns
   /\ k # "ic" => st'.ic = st.ic
   /\ k # "plot" => st'.plots = st.plots
   /\ k \notin {"fit", "mcmc"} => st'.best = st.best
   /\ k # "derive" => st'.der.of = st.der.of /\ (st'.der.run => st.der.run)
   /\ k \notin {"derive", "mcmc", "ns"} => st'.der = st.der /\ st'.dfile = st.dfile]_vars
-----------------------------------------------------------------------------
Chosen(n) == {c \in SUBSET (1..Len(McmcOptions)) : Cardinality(c) <= n}
RECURSIVE ValuesFor(_)
ValuesFor(c) == IF c = {} THEN {<<>>} ELSE
   LET i == CHOOSE i \in c : \A j \in c : i <= j IN
   {<<[n |-> i, text |-> v]>> \o r : v \in Values(McmcOptions[i]), r \in ValuesFor(c \ {i})}
Given(g, i) == {k \in 1..Len(g) : g[k].n = i}
Meaning(g) == [i \in 1..Len(McmcOptions) |->
   LET o == McmcOptions[i] IN
   [key |-> o.key, as |-> o.as,
    text |-> IF Given(g, i) = {} THEN o.default ELSE g[CHOOSE k \in Given(g, i) : TRUE].text]]
AllOptions == UNION {ValuesFor(c) : c \in Chosen(2)}
ASSUME Part # "options" \/ \A g \in AllOptions :
   /\ \A i \in 1..Len(McmcOptions) : Given(g, i) = {} => Meaning(g)[i].text = McmcOptions[i].default
   /\ PrintT(ToJson([mcmc |-> [i \in 1..Len(g) |-> [opt |-> McmcOptions[g[i].n].opt, as |-> McmcOptions[g[i].n].as,
                                                    text |-> g[i].text]], means |-> Meaning(g)]))
ASSUME Part # "options" \/ \A a, b \in 1..Len(Texts) :
   PrintT(ToJson([ns |-> <<Texts[a], Texts[b]>>]))
ASSUME Part # "options" \/ \A c \in IcCases :
   PrintT(ToJson([ic |-> c, compare |-> Comparisons(c), merged |-> Merged(c), fix |-> FixJitters(c)]))
=============================================================================
