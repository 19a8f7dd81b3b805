------------------------------ MODULE Stuffed ------------------------------
(***************************************************************************)
(* One stored file whose records in the volumes do not fit it: zeros are   *)
(* packed behind its data, or its header does not say how long it is       *)
(* (the bad archives some groups made).  The volumes are rebuilt from a    *)
(* source that can be too short, too long or damaged.                      *)
(*                                                                         *)
(* A unit of data is a number: 0 is a unit of zeros, anything else         *)
(* identifies the unit.  The checksum in the header of a part that         *)
(* continues is of that part, the one of the last part of the whole file;  *)
(* the zeros that were packed behind the file are in neither.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Parts,     \* units of the file per volume: set of sequences
    Stuffs,    \* zero units behind the last part
    MaxExtra   \* how much longer a source can be

VARIABLES env, k, pos, read, bad, out, result
vars == <<env, k, pos, read, bad, out, result>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Min(a, b) == IF a < b THEN a ELSE b

Size == Sum(env.parts)
\* the file: its last unit can be zeros itself
Data == [i \in 1 .. Size |-> IF env.zeroend /\ i = Size THEN 0 ELSE i]
Slice(s, a, n) == [i \in 1 .. n |-> s[a + i]]
Start(j) == Sum(SubSeq(env.parts, 1, j - 1))
Last(j) == j = Len(env.parts)
Zeros(n) == [i \in 1 .. n |-> 0]
\* what the volumes hold
Packed(j) == Slice(Data, Start(j), env.parts[j]) \o (IF Last(j) THEN Zeros(env.stuff) ELSE <<>>)
\* what the header of a part says
PackedSize(j) == Len(Packed(j))
Sum_(j) == IF Last(j) THEN Data ELSE Slice(Data, Start(j), env.parts[j])

\* the source: the first units of the file and what was put behind it
Source == LET s == Slice(Data, 0, Min(Size, Size + env.delta)) \o [i \in 1 .. (IF env.delta > 0 THEN env.delta ELSE 0) |-> IF env.junk THEN 99 ELSE 0]
          IN [i \in 1 .. Len(s) |-> IF i = env.flip THEN 100 + i ELSE s[i]]

Init ==
    /\ env \in [parts : Parts, stuff : Stuffs, zeroend : BOOLEAN, sized : BOOLEAN, delta : -2 .. MaxExtra, junk : BOOLEAN, flip : 0 .. 3, skip : BOOLEAN]
    /\ Size > 0 /\ Size + env.delta >= 0
    /\ (env.junk => env.delta > 0)
    /\ env.flip <= Min(Size, Size + env.delta)
    /\ k = 1 /\ pos = 0 /\ read = <<>> /\ bad = FALSE /\ out = <<>> /\ result = "run"

Open ==
    /\ result = "run" /\ k = 1 /\ env.sized /\ Len(Source) # Size
    /\ result' = "size"
    /\ UNCHANGED <<env, k, pos, read, bad, out>>

Part ==
    /\ result = "run" /\ k <= Len(env.parts) /\ (env.sized => Len(Source) = Size)
    /\ LET n == Min(PackedSize(k), Len(Source) - pos)
           got == Slice(Source, pos, n)
           all == read \o got
       IN /\ out' = Append(out, got \o Zeros(PackedSize(k) - n))
          /\ read' = all
          /\ bad' = (bad \/ (~env.skip /\ (IF Last(k) THEN all ELSE got) # Sum_(k)))
          /\ pos' = pos + n
    /\ k' = k + 1
    /\ UNCHANGED <<env, result>>

Done == result = "run" /\ k = Len(env.parts) + 1 /\ result' = "done" /\ UNCHANGED <<env, k, pos, read, bad, out>>

Next == Open \/ Part \/ Done
Spec == Init /\ [][Next]_vars

Right(j) == out[j] = Packed(j)
AllRight == \A j \in 1 .. Len(out) : Right(j)
\* volumes that differ are never left without a word, and the right file never raises one
NeverSilent == (result = "done" /\ ~AllRight /\ ~env.skip) => bad
RightSource == (Source = Data /\ result = "done") => (AllRight /\ ~bad)
SizesKept == \A j \in 1 .. Len(out) : Len(out[j]) = PackedSize(j)

Emit == result # "run" =>
    PrintT("B|" \o ToJson([env |-> env, data |-> Data, source |-> Source, packed |-> [j \in 1 .. Len(env.parts) |-> Packed(j)],
                           right |-> [j \in 1 .. Len(out) |-> Right(j)], bad |-> bad, result |-> result]))
=============================================================================
