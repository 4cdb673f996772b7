------------------------------ MODULE CheckC05 ------------------------------
(* Conversions between orbital bases: which keys exist after any chain of    *)
(* conversions, which of them still are the caller's own parameters, and the *)
(* orbit every basis describes.                                              *)
EXTENDS Keplerian, Json, TLC
CONSTANTS Depth, Thorough
VARIABLES cont, src, basis, keys, own, act, n
vars == <<cont, src, basis, keys, own, act, n>>
View == <<cont, src, basis, keys, own, n>>

KeySet(b) == {BasisKeys(b)[j] : j \in 1..Len(BasisKeys(b))}
Containers == {"params", "frame", "vector"}
From(c) == IF c = "vector" THEN Bases ELSE Bases \cup {PrintBasis}
To(c)   == From(c)

\* own: keys that are still the parameters the caller supplied (flags, steps untouched)
Init == /\ cont \in Containers /\ src \in From(cont) /\ basis = src
        /\ keys = KeySet(src) /\ own = keys /\ n = 0 /\ act = [name |-> "start"]
Step(b2, k2, own2, a) == /\ n < Depth /\ basis' = b2 /\ keys' = k2 /\ own' = own2 /\ n' = n + 1
                         /\ act' = a /\ UNCHANGED <<cont, src>>
\* a vector has one row per slot, so the old key of the slot disappears
Kept(old, new) == IF cont = "vector" THEN new ELSE old \cup new

ToSynth(nv) == LET k2 == Kept(keys, KeySet(SynthBasis))
               IN Step(SynthBasis, k2, own \cap k2, [name |-> "to_synth", noVary |-> nv])
FromSyn(b, keep) ==
  /\ basis = SynthBasis
  /\ cont = "vector" => ~keep
  /\ LET k2 == IF keep THEN keys \cup KeySet(b) ELSE KeySet(b)
     IN Step(b, k2, own \cap k2, [name |-> "from_synth", to |-> b, keep |-> keep])
\* through the synthesis basis, old keys dropped
ToAny(b) == LET k2 == KeySet(b)
                mid == IF cont = "vector" THEN own \cap KeySet(SynthBasis) ELSE own
            IN Step(b, k2, mid \cap k2, [name |-> "to_any", to |-> b])
Next == \/ \E nv \in {"default", "yes", "no"} : ToSynth(nv)
        \/ \E b \in To(cont), keep \in BOOLEAN : FromSyn(b, keep)
        \/ \E b \in To(cont) : ToAny(b)
Spec == Init /\ [][Next]_vars

\* ---- the properties, on the specification
Exact == (act.name = "to_any" \/ (act.name = "from_synth" /\ ~act.keep)) => keys = KeySet(basis)
Declared == KeySet(basis) \subseteq keys
OwnKept == own \subseteq keys \cap KeySet(src)
\* every basis determines the orbit: its keys, and only they, give the five elements, and
\* translating those elements back into the basis mentions no other key
Determined == \A b \in Bases \cup {PrintBasis} : LET s == Synth(b, 1) IN
   /\ \A f \in {"per", "tp", "e", "w", "k"} :
        VarsOf(s[f]) \subseteq {Key(k, 1) : k \in KeySet(b)}
   /\ UNION {VarsOf(s[f]) : f \in {"per", "tp", "e", "w", "k"}} \cup {Key("tc", 1)} 
        = {Key(k, 1) : k \in KeySet(b)} \cup {Key("tc", 1)}
ASSUME Determined
ASSUME BasisFacts

V(c, s, b, k, o, m) == [cont |-> c, src |-> s, basis |-> b, keys |-> k, own |-> o, n |-> m]
Emit == PrintT(ToJson([f |-> V(cont, src, basis, keys, own, n), a |-> act',
                       t |-> V(cont', src', basis', keys', own', n')]))
\* the meaning of every basis, once
ASSUME \A b \in Bases \cup {PrintBasis} : \A i \in 1..3 :
   PrintT(ToJson([table |-> b, i |-> i, synth |-> Synth(b, i), rv |-> PlanetRV(b, i, Vr("t")),
                  keys |-> [j \in 1..Len(BasisKeys(b)) |->
                     [key |-> BasisKeys(b)[j],
                      val |-> FromSynth([per |-> Vr("per"), tp |-> Vr("tp"), e |-> Vr("e"),
                                         w |-> Vr("w"), k |-> Vr("k")], BasisKeys(b)[j])]]]))
=============================================================================
