------------------------------ MODULE CheckC19 ------------------------------
(* Part "terms": every setup, with what loading it yields.  Part "hist": every *)
(* history of loading two files, editing what was loaded, and rewriting files: *)
(* a posterior is what its file was when it was loaded, and stays so.          *)
EXTENDS Setup, Json, TLC
CONSTANTS Part, MaxRows, Depth
VARIABLES files, posts, hist
vars == <<files, posts, hist>>
Tels == {"j", "k", "x"}
InstSeqs == {<<"j">>, <<"j", "k">>, <<"k", "j">>, <<"k", "x", "j">>}
Base == [noise |-> "white", second |-> "", shared |-> FALSE, decorr |-> <<>>, asked |-> FALSE,
         logjit |-> {}, match |-> TRUE, missing |-> ""]
Variants == {Base} \cup
  {[Base EXCEPT !.noise = n, !.shared = s] : n \in {"default", "SqExp", "Per", "QuasiPer", "Celerite"}, s \in BOOLEAN} \cup
  {[Base EXCEPT !.noise = n, !.second = m] : n \in {"SqExp", "QuasiPer", "Celerite"}, m \in {"SqExp", "Per", "Celerite"}} \cup
  {[Base EXCEPT !.decorr = d, !.asked = a] : d \in {<<"bis">>, <<"bis", "sval">>}, a \in BOOLEAN} \cup
  {[Base EXCEPT !.logjit = l] : l \in {{"j"}, {"j", "k"}}} \cup
  {[Base EXCEPT !.match = FALSE], [Base EXCEPT !.missing = "j"], [Base EXCEPT !.missing = "k"]}
Setups(n) == {[rows |-> r, insts |-> s, noise |-> v.noise, second |-> v.second, shared |-> v.shared,
               decorr |-> v.decorr, asked |-> v.asked, logjit |-> v.logjit, match |-> v.match, missing |-> v.missing] :
               r \in UNION {[1..k -> Tels] : k \in 1..n}, s \in InstSeqs, v \in Variants}
ASSUME Part # "terms" \/ \A c \in Setups(MaxRows) :
   /\ ~ Refused(c) => Exact(c) /\ Own(c)
   /\ PrintT(ToJson([setup |-> c, refused |-> Refused(c),
                     want |-> IF Refused(c) THEN [likes |-> <<>>, noise |-> {}, extra |-> {}] ELSE Loaded(c)]))
Files == {"A", "B"}
Contents == 1..3
Init == files = [f \in Files |-> IF f = "A" THEN 1 ELSE 2] /\ posts = <<>> /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Load(f) == /\ posts' = Append(posts, [of |-> files[f], edited |-> FALSE])
           /\ files' = files /\ Log([act |-> "load", f |-> f, i |-> 0, posts |-> posts'])
Edit(i) == /\ ~ posts[i].edited
           /\ posts' = [posts EXCEPT ![i].edited = TRUE]
           /\ files' = files /\ Log([act |-> "edit", f |-> "", i |-> i, posts |-> posts'])
Rewrite(f, c) == /\ c # files[f] /\ files' = [files EXCEPT ![f] = c] /\ posts' = posts
                 /\ Log([act |-> "write", f |-> f, i |-> c, posts |-> posts'])
Next == /\ Part = "hist" /\ Len(hist) < Depth
        /\ \/ \E f \in Files : Load(f)
           \/ \E i \in 1..Len(posts) : Edit(i)
           \/ \E f \in Files, c \in Contents : Rewrite(f, c)
Spec == Init /\ [][Next]_vars
\* what was loaded is never changed by anything done to files or to other posteriors
Independent == [][\A i \in 1..Len(posts) : posts'[i].of = posts[i].of /\
                    (posts'[i].edited # posts[i].edited => hist'[Len(hist')].act = "edit" /\ hist'[Len(hist')].i = i)]_vars
Equal == \A i \in 1..Len(hist) : hist[i].act = "load" =>
           \/ \E k \in 1..i - 1 : hist[k].act = "write" /\ hist[k].f = hist[i].f
           \/ hist[i].posts[Len(hist[i].posts)].of = (IF hist[i].f = "A" THEN 1 ELSE 2)
Emit == Part = "hist" /\ Len(hist) = Depth /\ (\E i \in 1..Depth : hist[i].act = "load") => PrintT(ToJson(hist))
=============================================================================
