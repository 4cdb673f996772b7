------------------------------ MODULE CheckC10 ------------------------------
(* Two posteriors and a file.  Saving takes a snapshot, loading and copying   *)
(* produce an object in the snapshot's state, and from then on the objects    *)
(* evolve independently.                                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names     \* the operations explored together
VARIABLES obj, file, act
vars == <<obj, file, act>>
View == <<obj, file>>

\* state of one posterior: value tokens of the two groups of parameters, whether group b is
\* free (a always is), the second prior attached or not, one datum altered or not
St(a, b, vb, pri, dat) == [a |-> a, b |-> b, vb |-> vb, pri |-> pri, dat |-> dat]
None == St(0, 0, FALSE, FALSE, FALSE)      \* no object / no file
Start == St(1, 1, FALSE, FALSE, FALSE)
Ids == {1, 2}
Init == obj = <<Start, None>> /\ file = None /\ act = [name |-> "start"]

\* operations on one posterior: every operation is a function of that posterior's state alone
Ops == {op \in {[name |-> "set", tok |-> q] : q \in {1, 2}}              \* write the array
                \cup {[name |-> "edit", tok |-> q] : q \in {1, 2}}        \* edit every named value, re-synchronise
                \cup {[name |-> "free"], [name |-> "prior"], [name |-> "data"],
                      [name |-> "logprob_array", tok |-> 2], [name |-> "eval"]} : op.name \in Names}
Do(s, op) ==
  CASE op.name = "set" -> [s EXCEPT !.a = op.tok, !.b = IF s.vb THEN op.tok ELSE @]
    [] op.name = "logprob_array" -> [s EXCEPT !.a = op.tok, !.b = IF s.vb THEN op.tok ELSE @]
    [] op.name = "edit" -> [s EXCEPT !.a = op.tok, !.b = op.tok]
    [] op.name = "free" -> [s EXCEPT !.vb = ~@]
    [] op.name = "prior" -> [s EXCEPT !.pri = ~@]
    [] op.name = "data" -> [s EXCEPT !.dat = ~@]
    [] OTHER -> s
Operate == \E i \in Ids : \E op \in Ops :
  /\ obj[i] # None /\ (Do(obj[i], op) # obj[i] \/ op.name = "eval")
  /\ obj' = [obj EXCEPT ![i] = Do(obj[i], op)] /\ UNCHANGED file
  /\ act' = [name |-> "op", i |-> i, op |-> op]
\* the copy replaces the other slot
Copy == \E i \in Ids : \E how \in {"deepcopy", "pickle"} :
  /\ obj[i] # None
  /\ obj' = [obj EXCEPT ![3 - i] = obj[i]] /\ UNCHANGED file
  /\ act' = [name |-> "copy", i |-> i, how |-> how]
Save == \E i \in Ids : obj[i] # None /\ file # obj[i] /\ file' = obj[i] /\ UNCHANGED obj
                       /\ act' = [name |-> "save", i |-> i]
Load == \E i \in Ids : file # None /\ obj[i] # file /\ obj' = [obj EXCEPT ![i] = file] /\ UNCHANGED file
                       /\ act' = [name |-> "load", i |-> i]
Next == Operate \/ Copy \/ Save \/ Load
Spec == Init /\ [][Next]_vars

\* properties
Independent == [][act'.name = "op" => obj'[3 - act'.i] = obj[3 - act'.i] /\ file' = file]_vars
Equivalent == [][act'.name = "copy" => obj'[3 - act'.i] = obj[act'.i] /\ obj'[act'.i] = obj[act'.i]]_vars
Snapshot == [][act'.name = "load" => obj'[act'.i] = file]_vars
SaveReads == [][act'.name = "save" => obj' = obj]_vars
Emit == PrintT(ToJson([f |-> [o |-> obj, file |-> file], a |-> act', t |-> [o |-> obj', file |-> file']]))
=============================================================================
