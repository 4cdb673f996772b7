------------------------------ MODULE CheckC14 ------------------------------
(* Histories of nested-sampling runs over one directory: wide ones of one run  *)
(* with everything that can be asked for, and deep ones of plain runs.         *)
EXTENDS NestedRun, Json, TLC
CONSTANTS Depth, Wide
VARIABLES dir, hist
vars == <<dir, hist>>
N == Len(hist) + 1
Posts == {"small", "seven", "eight", "extra", "improper"}
Optss(s) == {<<"none">>, <<"plain">>, <<"empty">>} \cup Reserved(s)
Init == dir = Empty /\ hist = <<>>
MkDir == /\ ~ dir.dir
         /\ dir' = Made(dir)
         /\ hist' = Append(hist, [act |-> "mkdir", dir |-> dir'])
Run(r) == /\ Refused(dir, r) \/ Sensible(dir, r)
          /\ dir' = After(dir, r, N)
          /\ hist' = Append(hist, [act |-> "run", r |-> r, why |-> Why(dir, r),
                lineage |-> IF Refused(dir, r) THEN <<>> ELSE Lineage(dir, r, N),
                told |-> Told(dir, r), resumes |-> Resumes(dir, r),
                free |-> Free(r.post), wraps |-> Wraps(r.post), step |-> StepSampler(r.post),
                dir |-> dir'])
Asked(s, out, ow, pr, crash, p, nm, o) ==
  LET r == [sampler |-> s, name |-> nm, out |-> out, ow |-> ow, pr |-> pr, crash |-> FALSE,
            opts |-> o, post |-> p] IN
  /\ crash => ~ Refused(dir, r)
  /\ IF Wide THEN N = 1 \/ hist[1].act = "mkdir"
     ELSE /\ p = "small" /\ nm = s
          /\ o = <<"plain">> \/ (o \in Reserved(s) /\ out /\ pr /\ ~ ow /\ ~ crash)
          /\ N > 1 => out
          /\ (N > 1 /\ hist[1].act = "run") => (s = hist[1].r.sampler \/ (ow /\ ~ crash))
Next == /\ Len(hist) < Depth
        /\ \/ MkDir
           \/ \E s \in Samplers, out, ow, pr, crash \in BOOLEAN, p \in Posts :
              \E nm \in Aliases[s] \cup (IF s = "ultranest" THEN Unknown ELSE {}), o \in Optss(s) :
                /\ Asked(s, out, ow, pr, crash, p, nm, o) = TRUE
                /\ Run([sampler |-> s, name |-> nm, out |-> out, ow |-> ow, pr |-> pr,
                        crash |-> crash, opts |-> o, post |-> p])
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]
Kept == [][dir.results # <<>> /\ dir'.results # dir.results => Last.r.ow \/ Last.r.pr]_vars
RefusedChangesNothing == [][Last.act = "run" => (Last.why # {} => dir' = dir)]_vars
CrashKeeps == [][Last.act = "run" => (Last.r.crash => dir'.results = dir.results)]_vars
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Resuming == [][(Last.act = "run" /\ Last.why = {} /\ Last.r.out /\ Last.r.pr) =>
                 IsPrefix(dir.ckpt[Key(Last.r.sampler)], dir'.ckpt[Key(Last.r.sampler)])]_vars
OwnCheckpoint == [][\A k \in Keys : (Last.act = "run" => Key(Last.r.sampler) # k) => dir'.ckpt[k] = dir.ckpt[k]]_vars
\* the results are those of a run that finished, together with the checkpoints it resumed
Belong == dir.results # <<>> =>
   /\ hist[dir.results[Len(dir.results)]].act = "run"
   /\ \A i \in 1..Len(dir.results) : LET h == hist[dir.results[i]] IN
        /\ h.why = {} /\ h.r.out
        /\ Key(h.r.sampler) = Key(hist[dir.results[Len(dir.results)]].r.sampler)
        /\ i = Len(dir.results) => ~ h.r.crash
Emit == (Len(hist) = Depth \/ (Wide /\ Len(hist) = 1 /\ hist[1].act = "run")) => PrintT(ToJson(hist))
=============================================================================
