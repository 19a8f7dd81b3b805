------------------------------- MODULE Finger -------------------------------
(***************************************************************************)
(* The content fingerprint along histories of changes to an SRR: it is a   *)
(* function of the RAR metadata, sorted by the lower-case base name of the *)
(* volumes, and of nothing else.                                           *)
(***************************************************************************)
EXTENDS SrrFile, TLC, Json

CONSTANTS Inits, Apps, News,   \* application names, stored files that can be added
          Variants,            \* metadata of a volume
          VNames,              \* names of volumes
          Rank,                \* volume name -> rank of its lower-case base name
          Osos, Depth

VARIABLES srr, h

VolsOf(s) == Only(s, "vol")
RECURSIVE Sorted(_)
Sorted(v) == IF v = <<>> THEN <<>>
             ELSE LET m == CHOOSE x \in 1 .. Len(v) : \A y \in 1 .. Len(v) : Rank[v[x].n] <= Rank[v[y].n]
                  IN <<v[m].d>> \o Sorted([x \in 1 .. Len(v) - 1 |-> IF x < m THEN v[x] ELSE v[x + 1]])
Print_(s) == Sorted(VolsOf(s))
Swap(s, x, y) == [s EXCEPT ![x] = s[y], ![y] = s[x]]
Free(s, x, name) == \A y \in 1 .. Len(s) : y # x /\ s[y].k = "vol" => Rank[s[y].n] # Rank[name]
Last(s) == s[Len(s)].k = "oso"

Do(op, s) == srr' = s /\ h' = Append(h, [op |-> op, srr |-> s, print |-> Print_(s)])

SetApp == \E x \in Apps : Do("app", [srr EXCEPT ![1] = App(x)])
AddStored == \E x \in News : Do("add", InsertStored(srr, <<x>>))
DropStored == \E i \in 1 .. Len(srr) : srr[i].k = "st" /\ Do("remove", RemoveNames(srr, {srr[i].n}))
AddOso == \E x \in Osos : Do("oso", Append(srr, x))
Reorder == \E x, y \in 1 .. Len(srr) : x < y /\ srr[x].k = "vol" /\ srr[y].k = "vol" /\ Do("order", Swap(srr, x, y))
Late == \E x \in 2 .. Len(srr) - 1 : srr[x].k = "st" /\ Do("late", [i \in 1 .. Len(srr) |->
            IF i < x THEN srr[i] ELSE IF i < Len(srr) THEN srr[i + 1] ELSE srr[x]])
Respell == \E x \in 1 .. Len(srr), m \in VNames : srr[x].k = "vol" /\ Rank[m] = Rank[srr[x].n] /\ m # srr[x].n
               /\ Do("spell", [srr EXCEPT ![x].n = m])
\* these touch the metadata
Other == \E x \in 1 .. Len(srr), d \in Variants : srr[x].k = "vol" /\ d # srr[x].d /\ Do("meta", [srr EXCEPT ![x].d = d])
Drop == \E x \in 2 .. Len(srr) : srr[x].k = "vol" /\ Len(VolsOf(srr)) > 1 /\ Do("drop", SubSeq(srr, 1, x - 1) \o SubSeq(srr, x + 1, Len(srr)))
Add == \E m \in VNames, d \in Variants : Free(srr, 0, m) /\ Do("vol", Append(srr, Vol(m, d)))

Init == srr \in Inits /\ h = <<[op |-> "init", srr |-> srr, print |-> Print_(srr)]>>
Next == Len(h) <= Depth /\ (SetApp \/ AddStored \/ DropStored \/ AddOso \/ Reorder \/ Late \/ Respell \/ Other \/ Drop \/ Add)
Spec == Init /\ [][Next]_<<srr, h>>

(*-- properties --*)
Meta == {"meta", "drop", "vol"}
SameSet(u, v) == \A d \in Variants : Cardinality({x \in 1 .. Len(u) : u[x] = d}) = Cardinality({x \in 1 .. Len(v) : v[x] = d})
PackagingIsInvisible == \A i \in 2 .. Len(h) : h[i].op \notin Meta \cup {"order"} => h[i].print = h[i - 1].print
OrderIsInvisible == \A i \in 2 .. Len(h) : h[i].op = "order" => h[i].print = h[i - 1].print
MetadataShows == \A i \in 2 .. Len(h) : h[i].op \in Meta => h[i].print # h[i - 1].print
Distinct == \A x, y \in 1 .. Len(srr) : x # y /\ srr[x].k = "vol" /\ srr[y].k = "vol" => Rank[srr[x].n] # Rank[srr[y].n]

Emit == IF Len(h) = Depth + 1 THEN PrintT("B|" \o ToJson(h)) ELSE TRUE
=============================================================================
