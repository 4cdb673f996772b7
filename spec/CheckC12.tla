------------------------------ MODULE CheckC12 ------------------------------
(* Sessions of Markov-chain runs over two files: a run may save to one, start *)
(* from one, be interrupted in its second round, or have another shape.       *)
EXTENDS Mcmc, Json, TLC
CONSTANTS Depth, Wide
VARIABLES files, hist
vars == <<files, hist>>
Names == {"A", "B"}
None == [shape |-> "none"]
Shapes == {"same", "ens", "walk", "dim"}
Plans == {<<"low", "low">>, <<"burn", "low">>, <<"low", "burn">>, <<"mixed", "mixed">>}
Cfg == [ci |-> 2, nrun |-> 4, minsteps |-> 0, minpercent |-> 0, burn |-> "auto", block |-> "none"]
N == Len(hist) + 1
\* the machine after k rounds of run n
RECURSIVE Play(_, _, _, _)
Play(m, plan, n, k) == IF k = 0 THEN m ELSE
   LET p == Play(m, plan, n, k - 1) IN Round(Cfg, p, n, plan[k])
Init == files = [f \in Names |-> None] /\ hist = <<>>
Refused(proceed, shape) == proceed # "" /\ files[proceed].shape # shape
Do(save, proceed, shape, plan, cut) ==
  LET start == IF proceed = "" THEN Fresh ELSE Continued(files[proceed].state)
      whole == Play(start, plan, N, 2)
      upto  == Play(start, plan, N, IF cut THEN 1 ELSE 2)
      before == Play(start, plan, N, IF cut THEN 0 ELSE 1)
      step == [save |-> save, proceed |-> proceed, shape |-> shape, plan |-> plan, cut |-> cut] IN
  IF Refused(proceed, shape)
  THEN /\ files' = files
       /\ hist' = Append(hist, [do |-> step, out |-> "refused", kept |-> <<>>, files |-> files'])
  ELSE /\ files' = IF save = "" THEN files
                   ELSE [files EXCEPT ![save] = [shape |-> shape, state |-> Saved(Cfg, before, upto)]]
       /\ hist' = Append(hist, [do |-> step, out |-> IF cut THEN "interrupted" ELSE "done",
                                kept |-> IF cut THEN <<>> ELSE whole.shown, files |-> files'])
Next == /\ Len(hist) < Depth
        /\ \E s \in Names \cup {""}, p \in Names \cup {""}, sh \in Shapes, pl \in Plans, cut \in BOOLEAN :
             /\ cut => s # "" /\ pl \in {<<"low", "low">>, <<"burn", "low">>}
             /\ N = 1 => p = "" /\ s # "B"
             /\ p # "" /\ files[p] = None => sh = "same" /\ pl = <<"low", "low">> /\ ~ cut
             /\ Wide \/ sh \in {"same", "ens"} \/ (p # "" /\ files[p].shape = "same")
             /\ (Wide /\ N > 1) \/ pl # <<"mixed", "mixed">>
             /\ Do(s, p, sh, pl, cut)
Spec == Init /\ [][Next]_vars
\* a file keeps what it continues from in front, unless a purge came between
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Continues == [][\A f \in Names : LET h == hist'[Len(hist')] IN
   (files'[f] # files[f] /\ h.do.proceed # "") =>
      \/ IsPrefix(files[h.do.proceed].state.kept, files'[f].state.kept)
      \/ /\ ~ files[h.do.proceed].state.burned
         /\ \A i \in 1..Len(files'[f].state.kept) : files'[f].state.kept[i][1] = Len(hist')]_vars
\* a file's samples are all there and all its own; nothing of another shape
Whole == \A f \in Names : files[f] # None => files[f].state.own = Cfg.ci * Len(files[f].state.kept)
OtherFilesStay == [][\A f \in Names : hist'[Len(hist')].do.save # f => files'[f] = files[f]]_vars
(* A run killed at any instant of its sampling or saving: the file holds the   *)
(* state after some whole round, the last one finished before the kill (or the *)
(* one being saved), or what it held before the run.                           *)
Cfg3 == [Cfg EXCEPT !.nrun = 6]
RECURSIVE Play3(_, _, _, _)
Play3(m, plan, n, k) == IF k = 0 THEN m ELSE
   LET p == Play3(m, plan, n, k - 1) IN Round(Cfg3, p, n, plan[k])
FirstFile(first) == Saved(Cfg, Play(Fresh, first, 1, 1), Play(Fresh, first, 1, 2))
Kills == {[first |-> f, plan |-> p,
           states |-> LET st == IF f = <<>> THEN Fresh ELSE Continued(FirstFile(f)) IN
                      [k \in 1..3 |-> Saved(Cfg3, Play3(st, p, 2, k - 1), Play3(st, p, 2, k))]] :
          f \in {<<>>, <<"low", "low">>, <<"burn", "low">>},
          p \in {<<"low", "low", "low">>, <<"low", "burn", "low">>, <<"burn", "low", "low">>}}
Survives == \A x \in Kills : \A k \in 1..3 :
   /\ x.states[k].own = Cfg.ci * Len(x.states[k].kept)
   /\ \E i \in 1..Len(x.states[k].kept) : x.states[k].kept[i] = <<2, k>>
ASSUME Survives
Stat == INSTANCE Converge
\* what a walker number stands for does not change between a run and its continuation
ASSUME \A a \in 1..12, d \in 1..4 : Walkers(Walkers(a, d), d) = Walkers(a, d)
ASSUME Depth # 2 \/ PrintT(ToJson([walkers |-> [a \in 1..12 |-> [d \in 1..4 |-> Walkers(a, d)]],
                                   terms |-> [n \in 1..3 |-> [gr |-> Stat!GR(n), tz |-> Stat!Tz(n)]]]))
ASSUME Depth # 2 \/ \A x \in Kills : PrintT(ToJson([kill |-> x]))
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
