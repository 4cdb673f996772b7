------------------------------ MODULE CheckC09 ------------------------------
(* Composition of a posterior.  The state is the list of attached priors (any *)
(* order, repetition allowed) and the current point; the log-posterior is a   *)
(* function of the bag of priors and of the point, whatever led there.        *)
EXTENDS Catalog, Priors, Json
CONSTANTS MaxLen
VARIABLES list, pt, act
vars == <<list, pt, act>>
View == <<list, pt>>

\* ---- the pool of priors of a configuration, and the points
PoolSize == 9
Jit(c) == JitKey(c.insts[1])
Pool(c) == <<
  [kind |-> "gauss", key |-> c.free[1], mu |-> <<3, 2>>, sig |-> <<40, 1>>],
  [kind |-> "bounds", key |-> Jit(c), lo |-> <<1, 2>>, hi |-> <<3, 1>>],
  [kind |-> "jeff", key |-> Jit(c), lo |-> <<1, 4>>, hi |-> <<10, 1>>],
  [kind |-> "ecc", form |-> "scalar", n |-> c.np, planets |-> <<>>, lims |-> <<<<3, 4>>>>],
  [kind |-> "posk", n |-> c.np],
  [kind |-> "user", keys |-> <<c.free[Len(c.free)], c.free[2]>>, coef |-> <<<<1, 3>>, <<-1, 8>>>>],
  [kind |-> "modjeff", key |-> Jit(c), lo |-> <<0, 1>>, hi |-> <<30, 1>>, knee |-> <<-1, 2>>],
  [kind |-> "sec", planet |-> 1, err |-> <<5, 1>>],
  [kind |-> "gauss", key |-> c.free[1], mu |-> <<3, 2>>, sig |-> <<1, 100>>] >>
Points == <<[jit |-> <<1, 1>>, e |-> "own", k |-> "own"],
            [jit |-> <<5, 1>>, e |-> "own", k |-> "own"],
            [jit |-> <<20, 1>>, e |-> "own", k |-> "own"],
            [jit |-> <<2, 1>>, e |-> "high", k |-> "own"],
            [jit |-> <<2, 1>>, e |-> "own", k |-> "neg"],
            [jit |-> <<-1, 1>>, e |-> "high", k |-> "neg"]>>
\* which prior excludes which point (amplitudes in a logarithmic basis are positive)
Excludes(i, q, b) ==
  CASE i = 2 -> ~(RLt(<<1, 2>>, Points[q].jit) /\ RLt(Points[q].jit, <<3, 1>>))
    [] i = 3 -> ~(RLe(<<1, 4>>, Points[q].jit) /\ RLe(Points[q].jit, <<10, 1>>))
    [] i = 7 -> ~(RLe(<<0, 1>>, Points[q].jit) /\ RLe(Points[q].jit, <<30, 1>>))
    [] i = 4 -> Points[q].e = "high"
    [] i = 5 -> Points[q].k = "neg" /\ Has(b, "k")
    [] OTHER -> FALSE

\* ---- the machine
Count(i, l) == Cardinality({j \in 1..Len(l) : l[j] = i})
Bag(l) == [i \in 1..PoolSize |-> Count(i, l)]
Init == list = <<>> /\ pt = 1 /\ act = [name |-> "start"]
Do(l, q, a) == list' = l /\ pt' = q /\ act' = a
Drop(l, j) == SubSeq(l, 1, j - 1) \o SubSeq(l, j + 1, Len(l))
Append1 == Len(list) < MaxLen /\ \E i \in 1..PoolSize : Do(Append(list, i), pt, [name |-> "append", i |-> i])
Insert == Len(list) < MaxLen /\ list # <<>> /\ \E i \in 1..PoolSize : Do(<<i>> \o list, pt, [name |-> "insert", i |-> i])
Remove == \E j \in 1..Len(list) : Do(Drop(list, j), pt, [name |-> "remove", j |-> j])
Swap == \E j \in 1..Len(list) - 1 : Do([m \in 1..Len(list) |-> IF m = j THEN list[j + 1]
           ELSE IF m = j + 1 THEN list[j] ELSE list[m]], pt, [name |-> "swap", j |-> j])
Replace == \E i \in 1..PoolSize : list # <<>> /\ Do(<<i>>, pt, [name |-> "assign", i |-> i])
Hows == {"array", "negarray", "set", "likeset", "named", "extra", "ns"}
Move == \E q \in 1..Len(Points), h \in Hows : q # pt /\ Do(list, q, [name |-> "move", q |-> q, how |-> h])
Next == Append1 \/ Insert \/ Remove \/ Swap \/ Replace \/ Move
Spec == Init /\ [][Next]_vars

Excluded(l, q, b) == \E j \in 1..Len(l) : Excludes(l[j], q, b)
B1 == Catalogue[1].basis
\* facts
StepBag == [][(act'.name = "swap" => Bag(list') = Bag(list))
              /\ (act'.name \in {"append", "insert"} => Bag(list')[act'.i] = Bag(list)[act'.i] + 1)
              /\ (act'.name = "remove" => Bag(list')[list[act'.j]] = Bag(list)[list[act'.j]] - 1)]_vars
\* adding a prior never lets an excluded point in; removing never excludes one
Monotone == [][pt' = pt /\ act'.name \in {"append", "insert"} =>
                 \A i \in 1..Len(Catalogue) : Excluded(list, pt, Catalogue[i].basis)
                    => Excluded(list', pt, Catalogue[i].basis)]_vars
V(l, q) == [list |-> l, pt |-> q]
Emit == PrintT(ToJson([f |-> V(list, pt), a |-> act', t |-> V(list', pt')]))

ASSUME \A i \in 1..Len(Catalogue) : \A m \in {"all", "alternate"} :
  LET c == WithFree(Catalogue[i], m) IN
  PrintT(ToJson([table |-> i, mode |-> m, cfg |-> c, free |-> FreeKeys(c), pool |-> Pool(c), points |-> Points,
     excl |-> [q \in 1..Len(Points) |-> [p \in 1..PoolSize |-> Excludes(p, q, c.basis)]],
     lp |-> [p \in 1..PoolSize |-> LogPrior(Pool(c)[p], c.basis)],
     extra |-> [p \in 1..PoolSize |-> Extra(Pool(c)[p])], ll |-> LogLike(c)]))
=============================================================================
