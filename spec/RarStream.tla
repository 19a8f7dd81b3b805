------------------------------ MODULE RarStream ------------------------------
(***************************************************************************)
(* Random access to one archived file that is stored in several chunks     *)
(* (one per volume, possibly of length zero).  The reader keeps a position *)
(* and the volume that contains it; every call is compared with the same   *)
(* call on the plain file.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxVols, ChunkLens, MaxOps, ReadSizes, Beyond

VARIABLES chunks, plain, pos, vol, hist

vars == <<chunks, plain, pos, vol, hist>>

RECURSIVE SumTo(_, _)
SumTo(c, i) == IF i = 0 THEN 0 ELSE c[i] + SumTo(c, i - 1)
Len_ == SumTo(chunks, Len(chunks))
Start(i) == SumTo(chunks, i - 1)
End(i) == SumTo(chunks, i) - 1

(* volume holding position p, 0 when there is none *)
Lookup(p) ==
    LET S == {i \in 1 .. Len(chunks) : Start(i) <= p /\ p <= End(i)}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

Init ==
    /\ chunks \in UNION {[1 .. n -> ChunkLens] : n \in 1 .. MaxVols}
    /\ plain = 0 /\ pos = 0 /\ vol = Lookup(0) /\ hist = <<>>

More == Len(hist) < MaxOps
Log(op, a, b, ok, n, p) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b, ok |-> ok, n |-> n, pos |-> p])

Target(off, whence) == (CASE whence = 0 -> 0 [] whence = 1 -> plain [] whence = 2 -> Len_) + off

Seek(off, whence) ==
    /\ More
    /\ LET t == Target(off, whence) IN
        IF t < 0
        THEN /\ Log("seek", off, whence, FALSE, 0, plain)
             /\ UNCHANGED <<plain, pos, vol>>
        ELSE /\ Log("seek", off, whence, TRUE, 0, t)
             /\ plain' = t /\ pos' = t /\ vol' = Lookup(t)
    /\ UNCHANGED chunks

(* what the plain file gives *)
Want(n) == LET left == IF plain >= Len_ THEN 0 ELSE Len_ - plain
           IN IF n < 0 \/ n > left THEN left ELSE n

(* what the volume walk gives: sequence of <<volume, from, count>> *)
RECURSIVE Walk(_, _, _)
Walk(p, v, n) ==
    IF v = 0 \/ n = 0 THEN <<>>
    ELSE LET have == End(v) - p + 1
             take == IF n < 0 \/ n > have THEN have ELSE n
             p2 == p + take
         IN <<[v |-> v, at |-> p - Start(v), n |-> take]>> \o Walk(p2, Lookup(p2), IF n < 0 THEN n ELSE n - take)
RECURSIVE Total(_)
Total(w) == IF w = <<>> THEN 0 ELSE Head(w).n + Total(Tail(w))

Read(n) ==
    /\ More
    /\ LET w == Walk(pos, vol, n)
           k == Total(w) IN
        /\ Log("read", n, 0, TRUE, Want(n), plain + Want(n))
        /\ plain' = plain + Want(n)
        /\ pos' = pos + k /\ vol' = Lookup(pos + k)
    /\ UNCHANGED chunks

Offsets(whence) ==
    CASE whence = 0 -> -1 .. Len_ + Beyond
      [] whence = 1 -> -Len_ - 1 .. Len_ + Beyond
      [] whence = 2 -> -Len_ - 1 .. Beyond

Next ==
    \/ \E w \in 0 .. 2 : \E o \in Offsets(w) : Seek(o, w)
    \/ \E n \in ReadSizes : Read(n)
Spec == Init /\ [][Next]_vars

(*-- the stream is the file -----------------------------------------------*)
SamePosition == pos = plain
VolumeRight == vol = Lookup(pos)
(* the bytes of the walk are the bytes from `plain` on, without gap *)
RECURSIVE GapFree(_, _)
GapFree(w, p) == IF w = <<>> THEN TRUE
                 ELSE Start(Head(w).v) + Head(w).at = p /\ Head(w).at + Head(w).n <= chunks[Head(w).v] /\ GapFree(Tail(w), p + Head(w).n)
SameBytes == \A n \in ReadSizes : LET w == Walk(pos, vol, n) IN GapFree(w, pos) /\ Total(w) = Want(n)

Emit == (Len(hist) = MaxOps) => PrintT("B|" \o ToJson([chunks |-> chunks, hist |-> hist]))
=============================================================================
