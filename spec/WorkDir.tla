------------------------------ MODULE WorkDir -------------------------------
(* The temporary change of the working directory: a stack of directories to  *)
(* return to.  Inside, the caller may change directory himself, enter again, *)
(* fail to enter, and leave normally or by an error.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Dirs, Depth
VARIABLES cwd, stack, act
vars == <<cwd, stack, act>>
Init == cwd = "home" /\ stack = <<>> /\ act = [op |-> "init"]
Enter(d) == /\ Len(stack) < Depth
            /\ stack' = Append(stack, cwd) /\ cwd' = d
            /\ act' = [op |-> "enter", d |-> d]
\* a directory that cannot be entered: an error, and nothing has changed
Refused == /\ UNCHANGED <<cwd, stack>> /\ act' = [op |-> "refused"]
Cd(d) == /\ cwd' = d /\ UNCHANGED stack /\ act' = [op |-> "cd", d |-> d]
Leave(how) == /\ stack # <<>>
              /\ cwd' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
              /\ act' = [op |-> "leave", how |-> how]
\* an error that nobody inside handles leaves every context
Unwind(how) == /\ stack # <<>> /\ cwd' = stack[1] /\ stack' = <<>>
               /\ act' = [op |-> "unwind", how |-> how]
Hows == {"normal", "error", "exit", "interrupt", "return"}
Next == \/ \E d \in Dirs : Enter(d) \/ Cd(d)
        \/ Refused
        \/ \E h \in Hows : Leave(h)
        \/ \E h \in Hows \ {"normal", "return"} : Unwind(h)
View == <<cwd, stack>>
Balanced == Len(stack) <= Depth
\* leaving everything is always at the directory of the first entry
Home == act.op = "unwind" => stack = <<>>
Emit == PrintT(ToJson([f |-> [cwd |-> cwd, stack |-> stack], a |-> act',
                       t |-> [cwd |-> cwd', stack |-> stack']]))
=============================================================================
