------------------------------ MODULE Session ------------------------------
(* A user's session with a posterior: named parameters ("dict"), the vector   *)
(* the model reads ("vec"), which parameters are free, and the lists of free  *)
(* parameters the posterior and its likelihood have cached.  Parameters are    *)
(* grouped into classes (Groups) that the harness maps to arbitrary partitions *)
(* of the real parameters; values are tokens standing for whole value sets.    *)

EXTENDS Integers, Sequences, FiniteSets

Groups == {"a", "b"}
Toks == {1, 2}
U == 0      \* a value the specification does not determine
Objs == {"post", "like"}
Free(v) == {g \in Groups : v[g]}

\* s = [vec, dict, vv, dv, lst]: values and flags in the vector and in the named parameters,
\* and the cached lists of free groups
Start(vv) == [vec |-> [g \in Groups |-> 1], dict |-> [g \in Groups |-> 1], vv |-> vv, dv |-> vv,
              lst |-> [o \in Objs |-> Free(vv)]]
Known(m) == \A g \in Groups : m[g] # U
Strict(A, B) == A # B /\ (A \subseteq B \/ B \subseteq A)
Fresh(s, o) == s.lst[o] = Free(s.vv)
\* the array of an object can be written when its list is current, or when the number of free
\* parameters tells that it is not
Writable(s, o) == Fresh(s, o) \/ Strict(s.lst[o], Free(s.vv))
Relist(s, os) == [o \in Objs |-> IF o \in os THEN Free(s.vv) ELSE s.lst[o]]
PutFree(m, s, q) == [g \in Groups |-> IF s.vv[g] THEN q ELSE m[g]]
St(vec, dict, vv, dv, lst) == [vec |-> vec, dict |-> dict, vv |-> vv, dv |-> dv, lst |-> lst]

\* ---- actions: [name, ...]
ViaLike == {"logprob_array", "neglogprob_array", "likelihood_ns_array", "extra_likelihood_array",
            "like.logprob_array", "like.neglogprob_array", "like.fast"}
Actions ==
  {[name |-> "set", o |-> o, tok |-> q] : o \in Objs, q \in Toks}
  \cup {[name |-> "fast", how |-> h, tok |-> q] : h \in ViaLike \cup {"post.fast"}, q \in Toks}
  \cup {[name |-> "bad", how |-> h, more |-> m] : h \in {"post.set", "like.set", "logprob_array"}, m \in BOOLEAN}
  \cup {[name |-> "edit", g |-> g, tok |-> q] : g \in Groups, q \in Toks}
  \cup {[name |-> "toggle", g |-> g] : g \in Groups}
  \cup {[name |-> "sync"], [name |-> "synclazy"], [name |-> "pull"], [name |-> "print"], [name |-> "eval"],
        [name |-> "deepcopy"], [name |-> "saveload"]}
ObjOf(a) == IF a.name = "set" THEN a.o
            ELSE IF a.how \in {"post.fast", "post.set"} THEN "post" ELSE "like"

Enabled(s, a) ==
  CASE a.name \in {"set", "fast"} -> Writable(s, ObjOf(a))
    [] a.name = "bad" -> Fresh(s, ObjOf(a)) /\ (a.more \/ Free(s.vv) # {})
    [] a.name = "edit" -> s.dict[a.g] # a.tok
    [] a.name = "toggle" -> TRUE
    [] a.name = "sync" -> Known(s.dict)
    [] a.name = "synclazy" -> /\ Known(s.dict) /\ s.dv # s.vv
                              /\ \A o \in Objs : s.lst[o] = Free(s.dv) \/ Strict(s.lst[o], Free(s.dv))
    [] a.name \in {"pull", "print"} -> Known(s.vec)
    [] a.name = "eval" -> Known(s.vec)
    [] OTHER -> TRUE

Apply(s, a) ==
  CASE a.name = "set" ->
         LET v == PutFree(s.vec, s, a.tok) IN St(v, v, s.vv, s.dv, Relist(s, {a.o}))
    [] a.name = "fast" ->      \* the named values of the free parameters are not brought along
         St(PutFree(s.vec, s, a.tok), PutFree(s.dict, s, U), s.vv, s.dv, Relist(s, {ObjOf(a)}))
    [] a.name = "bad" -> St(PutFree(s.vec, s, U), PutFree(s.dict, s, U), s.vv, s.dv, s.lst)
    [] a.name = "edit" -> St(s.vec, [s.dict EXCEPT ![a.g] = a.tok], s.vv, s.dv, s.lst)
    [] a.name = "toggle" -> St(s.vec, s.dict, s.vv, [s.dv EXCEPT ![a.g] = ~@], s.lst)
    [] a.name = "sync" -> St(s.dict, s.dict, s.dv, s.dv, [o \in Objs |-> Free(s.dv)])
    [] a.name = "synclazy" -> St(s.dict, s.dict, s.dv, s.dv, s.lst)
    [] a.name \in {"pull", "print"} -> St(s.vec, s.vec, s.vv, s.dv, s.lst)
    [] OTHER -> s

\* ---- properties of every step
\* writing an array leaves parameters that are not free alone, in the vector
FixedStay(s, a, t) == a.name \in {"set", "fast", "bad"} =>
   \A g \in Groups : ~s.vv[g] => t.vec[g] = s.vec[g]
\* after a write every free parameter has the written value
Written(s, a, t) == a.name \in {"set", "fast"} => \A g \in Groups : s.vv[g] => t.vec[g] = a.tok
\* evaluating, printing, saving and copying change no parameter the model uses
Pure(s, a, t) == a.name \in {"eval", "print", "deepcopy", "saveload", "pull"} => t.vec = s.vec /\ t.vv = s.vv /\ t.dv = s.dv
EvalPure(s, a, t) == a.name \in {"eval", "deepcopy", "saveload"} => t = s
\* a completed write or synchronisation leaves both descriptions at the same point
Coherent(s, a, t) == a.name \in {"set", "sync", "synclazy", "pull", "print"} => t.vec = t.dict
\* an edit is not lost: only a write, a pull or a print may replace it
EditKept(s, a, t) == a.name \in {"edit", "toggle", "eval", "deepcopy", "saveload", "sync"} =>
   \A g \in Groups : s.dict[g] # U => (t.dict[g] = s.dict[g] \/ (a.name = "edit" /\ a.g = g))
\* a cached list is current, or the number of free parameters tells that it is not
NeverMisread(s) == \A o \in Objs : Writable(s, o)
=============================================================================
