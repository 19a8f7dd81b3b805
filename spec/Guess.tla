-------------------------------- MODULE Guess --------------------------------
(***************************************************************************)
(* SRS files whose signature of a track is only a text that all key frames *)
(* of that track begin with: the first place where it occurs does not have *)
(* to be the right one.  The other places seen while the main video was    *)
(* searched are tried, as long as they lie near the tracks found for sure. *)
(*                                                                         *)
(* The main video is a sequence of frames [t |-> track, key |-> begins     *)
(* with the text?]; the sample is what lies in a window of it.  Tracks of  *)
(* Bad have such a signature; their samples begin with a key frame.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Good, Bad, MaxLen, Faulty

VARIABLES main, a, z, phase, pos, at, others, todo, off, result
vars == <<main, a, z, phase, pos, at, others, todo, off, result>>

Tracks == Good \cup Bad
Frames == {[t |-> t, key |-> FALSE] : t \in Tracks} \cup {[t |-> t, key |-> TRUE] : t \in Bad}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

InWindow(t) == {i \in a..z : main[i].t = t}
True_(t) == MinOf(InWindow(t))
Keys(t) == {i \in DOMAIN main : main[i] = [t |-> t, key |-> TRUE]}
LastGood == IF Good = {} THEN z ELSE MaxOf(UNION {InWindow(t) : t \in Good})

Init == /\ main = <<>> /\ a = 1 /\ z = 0 /\ phase = "build" /\ pos = 0 /\ result = "none"
        /\ at = [t \in Tracks |-> 0] /\ others = [t \in Tracks |-> {}] /\ todo = {} /\ off = [t \in Tracks |-> 0]

Build == /\ phase = "build" /\ Len(main) < MaxLen
         /\ \E f \in Frames : main' = Append(main, f)
         /\ UNCHANGED <<a, z, phase, pos, at, others, todo, off, result>>
Cut == /\ phase = "build" /\ main # <<>>
       /\ \E x \in DOMAIN main : \E y \in x..Len(main) :
            /\ a' = x /\ z' = y
            /\ \A t \in Tracks : \E i \in x..y : main[i].t = t
            /\ \A t \in Bad : \E i \in x..y : main[i] = [t |-> t, key |-> TRUE] /\ \A j \in x..(i - 1) : main[j].t # t
       /\ phase' = "scan" /\ UNCHANGED <<main, pos, at, others, todo, off, result>>

(* the first place, and for tracks of Bad the other ones *)
Scan == /\ phase = "scan" /\ pos < Len(main)
        /\ pos' = pos + 1
        /\ LET f == main[pos + 1]
               m == IF f.t \in Bad THEN f.key ELSE pos + 1 = True_(f.t)
           IN /\ at' = IF m /\ at[f.t] = 0 THEN [at EXCEPT ![f.t] = pos + 1] ELSE at
              /\ others' = IF m /\ at[f.t] # 0 /\ f.t \in Bad THEN [others EXCEPT ![f.t] = @ \cup {pos + 1}] ELSE others
        /\ UNCHANGED <<main, a, z, phase, todo, off, result>>

(* the search does not go on when all the data can be there *)
Near(t, sure) ==
    LET lo == MinOf(sure)
        hi == MaxOf(sure)
        o == others[t] \cup {at[t]}
        below == {x \in o : x < lo}
        above == {x \in o : x > hi}
    IN (IF below = {} THEN {} ELSE {MaxOf(below)}) \cup (IF above = {} THEN {} ELSE {MinOf(above)}) \cup {x \in o : x > lo /\ x < hi} \cup {at[t]}
Sure == {at[t] : t \in {u \in Tracks : u \in Good \/ others[u] = {}}}
Stop == /\ phase = "scan" /\ pos >= LastGood /\ \A t \in Tracks : at[t] # 0
        /\ off' = at
        /\ LET g == [t \in Tracks |-> IF t \in Good \/ others[t] = {} \/ Sure = {} THEN {at[t]} ELSE Near(t, Sure)]
           IN todo' = IF Faulty = "firstonly" THEN {} ELSE {o \in [Tracks -> 1..Len(main)] : \A t \in Tracks : o[t] \in g[t]} \ {at}
        /\ phase' = "try" /\ UNCHANGED <<main, a, z, pos, at, others, result>>

Right == \A t \in Tracks : off[t] = True_(t)
Try == /\ phase = "try"
       /\ IF Right THEN phase' = "end" /\ result' = "ok" /\ UNCHANGED <<todo, off>>
          ELSE IF todo = {} THEN phase' = "end" /\ result' = "failed" /\ UNCHANGED <<todo, off>>
          ELSE \E o \in todo : off' = o /\ todo' = todo \ {o} /\ UNCHANGED <<phase, result>>
       /\ UNCHANGED <<main, a, z, pos, at, others>>

Next == Build \/ Cut \/ Scan \/ Stop \/ Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan \/ Stop \/ Try)

(* what a user relies on, without the order of the search *)
Surely(t) == t \in Good \/ \A i \in Keys(t) : i = True_(t)
IsFirst == \A t \in Bad : \A i \in Keys(t) : i >= True_(t)
Promised ==
    \/ IsFirst                                                                  \* the first place is the right one
    \/ /\ Good # {}
       /\ \A t \in Bad : True_(t) <= LastGood
       /\ LET lo == MinOf({True_(t) : t \in Good})                               \* in or next to the tracks found for sure
          IN \A t \in Bad : Surely(t) \/ ~\E i \in Keys(t) : i < lo /\ i > True_(t)

Sound == (result = "ok") => Right
Complete == (phase = "end" /\ Promised) => result = "ok"
Ends == (phase = "scan") ~> (phase = "end")

Emit == (phase = "end" /\ pos = Len(main)) =>
    PrintT("B|" \o ToJson([main |-> [i \in DOMAIN main |-> <<main[i].t, IF main[i].key THEN 1 ELSE 0>>], a |-> a, z |-> z, promised |-> Promised,
                           bad |-> Bad, first |-> IsFirst,
                           mixed |-> ~IsFirst /\ \E t \in Bad : ~Surely(t) /\ \A i \in Keys(t) : i >= True_(t)]))
=============================================================================
