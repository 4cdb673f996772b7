------------------------------- MODULE Setup --------------------------------
(* What a setup file declares and the posterior that loading it yields.        *)
(* A setup is                                                                  *)
(*  [rows: sequence of instrument names, one per line of the data table,       *)
(*   insts: the declared instruments in order,                                 *)
(*   noise: "white" or a kernel or "default" (hyperparameter names but no      *)
(*          kernel names), per instrument the same or two different ones,      *)
(*   second: the kernel of the second instrument ("" for the same),            *)
(*   shared: whether instruments share hyperparameters,                        *)
(*   decorr: sequence of columns to decorrelate against (asked for or not),    *)
(*   asked, logjit: instruments whose jitter is given as a logarithm,          *)
(*   match: whether the parameters are in the declared basis,                  *)
(*   missing: an instrument without its offset, "" for none]                   *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1..Len(s)}
\* the rows (their numbers) of one instrument, in the order of the table
RECURSIVE Pick(_, _, _)
Pick(rows, t, i) == IF i > Len(rows) THEN <<>>
                    ELSE IF rows[i] = t THEN <<i>> \o Pick(rows, t, i + 1) ELSE Pick(rows, t, i + 1)
RowsOf(c, t) == Pick(c.rows, t, 1)
Kernel(c, t) == CASE c.noise = "white" -> ""
                  [] c.noise = "default" -> "QuasiPer"
                  [] c.second # "" /\ Len(c.insts) > 1 /\ t = c.insts[2] -> c.second
                  [] OTHER -> c.noise
Hypers(k) == CASE k = "SqExp" -> <<"gp_length", "gp_amp">>
               [] k = "Per" -> <<"gp_per", "gp_length", "gp_amp">>
               [] k = "QuasiPer" -> <<"gp_per", "gp_perlength", "gp_explength", "gp_amp">>
               [] k = "Celerite" -> <<"gp_B", "gp_C", "gp_L", "gp_Prot">>
               [] OTHER -> <<>>
HName(c, t, h) == IF c.shared THEN h ELSE h \o "_" \o t
HNames(c, t) == [i \in 1..Len(Hypers(Kernel(c, t))) |-> HName(c, t, Hypers(Kernel(c, t))[i])]
Class(c, t) == CASE Kernel(c, t) = "" -> "RVLikelihood"
                 [] Kernel(c, t) = "Celerite" -> "CeleriteLikelihood"
                 [] OTHER -> "GPLikelihood"
Coefs(c, t) == IF c.asked /\ c.noise = "white"
               THEN [i \in 1..Len(c.decorr) |-> "c1_" \o c.decorr[i] \o "_" \o t] ELSE <<>>
Refused(c) == \/ ~ c.match
              \/ \E t \in Range(c.insts) : RowsOf(c, t) = <<>>
              \/ c.missing # "" /\ c.missing \in Range(c.insts)
Like(c, t) == [inst |-> t, rows |-> RowsOf(c, t), class |-> Class(c, t), kernel |-> Kernel(c, t),
               hnames |-> HNames(c, t), coefs |-> Coefs(c, t)]
Likes(c) == [i \in 1..Len(c.insts) |-> Like(c, c.insts[i])]
\* parameters declared in the file, under the names they have in the posterior
Noise(c) == UNION {{"gamma_" \o t, "jit_" \o t} \cup Range(HNames(c, t)) : t \in Range(c.insts)}
Extra(c) == UNION {Range(Coefs(c, t)) : t \in Range(c.insts)}
Loaded(c) == [likes |-> Likes(c), noise |-> Noise(c), extra |-> Extra(c)]
-----------------------------------------------------------------------------
\* every row of a declared instrument is in exactly one likelihood, once; no other row in any
Exact(c) == LET all == UNION {Range(Likes(c)[i].rows) : i \in 1..Len(c.insts)} IN
   /\ all = {r \in 1..Len(c.rows) : c.rows[r] \in Range(c.insts)}
   /\ \A i \in 1..Len(c.insts) : /\ Cardinality(Range(Likes(c)[i].rows)) = Len(Likes(c)[i].rows)
                                 /\ \A k \in 1..Len(Likes(c)[i].rows) - 1 : Likes(c)[i].rows[k] < Likes(c)[i].rows[k + 1]
                                 /\ \A j \in 1..Len(c.insts) : i # j => Range(Likes(c)[i].rows) \cap Range(Likes(c)[j].rows) = {}
Own(c) == ~ c.shared => \A i, j \in 1..Len(c.insts) : i # j =>
            Range(Likes(c)[i].hnames) \cap Range(Likes(c)[j].hnames) = {}
=============================================================================
