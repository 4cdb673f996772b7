------------------------------ MODULE NestedRun ------------------------------
(* The protocol of nested-sampling runs on an output directory.               *)
(* A directory either does not exist or holds the results of at most one run  *)
(* and, per kind of sampler, its checkpoint.  The content of a checkpoint or  *)
(* of the results is the lineage of the runs that made it: <<3>> is a run     *)
(* that started afresh, <<1, 3>> run 3 resuming the checkpoint of run 1.      *)
EXTENDS Integers, Sequences, FiniteSets
Samplers == {"dynesty-static", "dynesty-dynamic", "ultranest", "nautilus", "multinest"}
\* names under which a sampler can be asked for
Aliases == [s \in Samplers |->
  CASE s = "multinest" -> {"multinest", "pymultinest", "MultiNest", "PyMultiNest"}
    [] s = "ultranest" -> {"ultranest", "UltraNest"}
    [] s = "nautilus" -> {"nautilus", "Nautilus"}
    [] s = "dynesty-static" -> {"dynesty-static", "Dynesty-Static"}
    [] OTHER -> {"dynesty-dynamic", "DYNESTY-dynamic"}]
Unknown == {"polychord", "dynesty", ""}
\* options the run itself must control: the dictionary they are in, and their name
Reserved(s) == CASE s \in {"dynesty-static", "dynesty-dynamic"} ->
                      {<<"run", "resume">>, <<"run", "checkpoint_file">>}
                 [] s = "ultranest" -> {<<"sampler", "log_dir">>, <<"sampler", "resume">>}
                 [] s = "nautilus" -> {<<"sampler", "filepath">>, <<"sampler", "resume">>}
                 [] OTHER -> {<<"run", "outputfiles_basename">>, <<"run", "resume">>, <<"sampler", "seed">>}
\* checkpoints: the two dynesty samplers use the same file
Keys == {"dynesty", "ultranest", "nautilus", "multinest"}
Key(s) == IF s \in {"dynesty-static", "dynesty-dynamic"} THEN "dynesty" ELSE s
Empty == [dir |-> FALSE, results |-> <<>>, ckpt |-> [k \in Keys |-> <<>>], by |-> ""]
Made(d) == [d EXCEPT !.dir = TRUE]
\* r: [sampler, name, out, ow, pr, opts, post, crash]; opts is "none", "plain", "empty" or a reserved pair
IsReserved(r) == r.opts \notin {<<"none">>, <<"plain">>, <<"empty">>}
Why(d, r) ==
  {x \in {"priors", "sampler", "exists", "reserved", "directory"} :
     CASE x = "priors" -> r.post = "improper"
       [] x = "sampler" -> r.name \in Unknown
       [] x = "exists" -> r.out /\ d.results # <<>> /\ ~ r.ow /\ ~ r.pr
       [] x = "reserved" -> IsReserved(r)
       [] OTHER -> r.sampler = "multinest" /\ r.out /\ d.dir /\ ~ r.ow /\ ~ r.pr}
Refused(d, r) == Why(d, r) # {}
Resumes(d, r) == r.out /\ r.pr /\ d.ckpt[Key(r.sampler)] # <<>>
Lineage(d, r, n) == IF Resumes(d, r) THEN Append(d.ckpt[Key(r.sampler)], n) ELSE <<n>>
After(d, r, n) ==
  IF Refused(d, r) \/ ~ r.out THEN d
  ELSE [dir |-> TRUE,
        results |-> IF r.crash THEN d.results ELSE Lineage(d, r, n),
        ckpt |-> [d.ckpt EXCEPT ![Key(r.sampler)] = Lineage(d, r, n)],
        by |-> IF Key(r.sampler) = "dynesty" /\ ~ Resumes(d, r) THEN r.sampler ELSE d.by]
\* a dynesty checkpoint can only be resumed by the class that wrote it: not specified otherwise
Sensible(d, r) == Resumes(d, r) /\ Key(r.sampler) = "dynesty" => d.by = r.sampler
\* what the sampler is told besides the caller's options
Told(d, r) == CASE Key(r.sampler) = "dynesty" -> [resume |-> IF Resumes(d, r) THEN "yes" ELSE "no", verbose |-> ""]
                [] r.sampler = "ultranest" -> [resume |-> IF r.pr THEN "yes" ELSE "overwrite", verbose |-> ""]
                [] r.sampler = "nautilus" -> [resume |-> IF r.pr THEN "yes" ELSE "no", verbose |-> "yes"]
                [] OTHER -> [resume |-> IF r.pr THEN "yes" ELSE "no", verbose |-> ""]
\* free parameters of the posteriors used; times wrap around in ultranest
Free(p) == CASE p \in {"small", "improper", "extra"} -> {"logk1", "jit_j", "gamma_k"}
             [] p = "seven" -> {"tp1", "e1", "w1", "k1", "gamma_j", "jit_j", "gamma_k"}
             [] OTHER -> {"tc1", "secosw1", "sesinw1", "logk1", "dvdt", "gamma_j", "jit_j", "gamma_k"}
Wraps(p) == Free(p) \cap {"tc1", "tp1"}
StepSampler(p) == IF Cardinality(Free(p)) > 7 THEN 2 * Cardinality(Free(p)) ELSE 0
=============================================================================
