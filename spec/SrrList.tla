------------------------------ MODULE SrrList ------------------------------
(***************************************************************************)
(* Listing an SRR.  A writer puts parts together (header, stored files,    *)
(* volumes, hashes, in any order that merging and editing can produce); a  *)
(* reader walks over them once, one part per step, and accumulates the     *)
(* listing.  What the reader reports must be the direct function of the    *)
(* parts (Faithful).                                                       *)
(***************************************************************************)
EXTENDS SrrFile, TLC, Json

CONSTANTS
    Apps, Stored, Vols, Osos,   \* parts the writer can use
    SfvOf,       \* data id -> entries of a stored SFV, [n |-> file name, c |-> crc id, f |-> its lower-case name with the folder of the SFV]
    IsSfv,       \* stored names that are SFV files
    KeyOf,       \* volume or SFV entry name -> lower-case base name
    Lower,       \* volume name -> lower-case name
    MaxParts,
    Free         \* TRUE: any order;  FALSE: header, stored, volumes, hashes

VARIABLES parts, phase, pos, L
vars == <<parts, phase, pos, L>>

Rank == [app |-> 0, st |-> 1, vol |-> 2, oso |-> 3]
EmptyListing == [app |-> "", stored |-> <<>>, vols |-> <<>>, oso |-> <<>>, sfv |-> <<>>]

Init == /\ parts \in {<<App(a)>> : a \in Apps}
        /\ phase = "write" /\ pos = 1 /\ L = EmptyListing

Used(p) == \E i \in 1 .. Len(parts) : parts[i].k = p.k /\
              IF p.k = "vol" THEN Lower[parts[i].n] = Lower[p.n] ELSE parts[i].n = p.n
Add ==
    /\ phase = "write" /\ Len(parts) < MaxParts
    /\ \E p \in Stored \cup Vols \cup Osos :
        /\ ~Used(p)
        /\ Free \/ Rank[parts[Len(parts)].k] <= Rank[p.k]
        /\ parts' = Append(parts, p)
    /\ UNCHANGED <<phase, pos, L>>

Close == phase = "write" /\ phase' = "read" /\ UNCHANGED <<parts, pos, L>>

EntriesOf(p) == IF p.n \in IsSfv THEN SfvOf[p.d] ELSE <<>>

Read ==
    /\ phase = "read" /\ pos <= Len(parts)
    /\ LET p == parts[pos] IN
         L' = CASE p.k = "app" -> [L EXCEPT !.app = p.n]
                [] p.k = "st"  -> [L EXCEPT !.stored = Append(@, [n |-> p.n, d |-> p.d]), !.sfv = @ \o EntriesOf(p)]
                [] p.k = "vol" -> [L EXCEPT !.vols = Append(@, [n |-> p.n, d |-> p.d])]
                [] p.k = "oso" -> [L EXCEPT !.oso = Append(@, [n |-> p.n, d |-> p.d])]
    /\ pos' = pos + 1 /\ UNCHANGED <<parts, phase>>

Finish == phase = "read" /\ pos = Len(parts) + 1 /\ phase' = "done" /\ UNCHANGED <<parts, pos, L>>
Next == Add \/ Close \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

\* SFV entries give volumes their checksum (the last entry counts); the others are listed on their own.  An entry is about
\* the volume next to its SFV, or else about the first one with that name in whatever folder.
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Target(e) == LET near == {i \in 1 .. Len(L.vols) : Lower[L.vols[i].n] = e.f}
                 named == {i \in 1 .. Len(L.vols) : KeyOf[L.vols[i].n] = KeyOf[e.n]}
             IN IF near # {} THEN Min(near) ELSE IF named # {} THEN Min(named) ELSE 0
Matching(i) == SelectSeq(L.sfv, LAMBDA e : Target(e) = i)
CrcOf(i) == IF Matching(i) = <<>> THEN 0 ELSE Matching(i)[Len(Matching(i))].c
Others == SelectSeq(L.sfv, LAMBDA e : Target(e) = 0)
Out == [app |-> L.app, stored |-> L.stored, oso |-> L.oso, sfv |-> Others,
        vols |-> [i \in 1 .. Len(L.vols) |-> [n |-> L.vols[i].n, d |-> L.vols[i].d, c |-> CrcOf(i)]]]

Names_(s) == [i \in 1 .. Len(s) |-> [n |-> s[i].n, d |-> s[i].d]]
Faithful == phase = "done" =>
    /\ Out.app = parts[1].n
    /\ Out.stored = Names_(Only(parts, "st"))
    /\ Names_(Out.vols) = Names_(Only(parts, "vol"))
    /\ Out.oso = Names_(Only(parts, "oso"))
    /\ \A i \in 1 .. Len(L.sfv) : (\E j \in 1 .. Len(Out.sfv) : Out.sfv[j] = L.sfv[i]) \/ Target(L.sfv[i]) # 0
    \* a volume with an SFV next to it never has the checksum of one in an other folder
    /\ \A i \in 1 .. Len(L.vols) : (\E j \in 1 .. Len(L.sfv) : L.sfv[j].f = Lower[L.vols[i].n]) => \E j \in 1 .. Len(L.sfv) : Target(L.sfv[j]) = i /\ L.sfv[j].c = CrcOf(i)

Emit == phase = "done" => PrintT("B|" \o ToJson([parts |-> parts, out |-> Out]))
=============================================================================
