------------------------------ MODULE NntpFile ------------------------------
(***************************************************************************)
(* A posted file read like a file on disk (NNTPFile in                     *)
(* usenet/srr_usenet.py).  The file is cut into articles of Seg units (the *)
(* last one may be smaller).  Articles are fetched when they are needed:   *)
(* whole, or only a prefix when the file is a RAR volume (or when only     *)
(* the begin of the last article of a read is wanted); a prefix may turn   *)
(* out to be too short, then the whole article is fetched.                 *)
(*   held[k]   units of the data of article k that are there, -1: nothing  *)
(* Reads return the units [from, to) of the file: the invariant says that  *)
(* what the held prefixes give is exactly that.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Seg, MaxSegs, MaxOps, Rar,      \* Rar: {TRUE}, {FALSE} or both
          Prefixes,                       \* what the first fetch of a part of an article may bring
          Faulty                          \* "none"; "first": only the first article is completed (the old code)

VARIABLES total, rar, held, pos, hist, got, pc

vars == <<total, rar, held, pos, hist, got, pc>>

N == (total + Seg - 1) \div Seg
Len_(k) == IF k < N THEN Seg ELSE total - Seg * (N - 1)
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ total \in 1 .. Seg * MaxSegs /\ rar \in Rar
        /\ held = [k \in 1 .. MaxSegs |-> -1] /\ pos = 0 /\ hist = <<>> /\ got = <<>> /\ pc = "idle"

Op(o, a, from, to) == Append(hist, [op |-> o, a |-> a, from |-> from, to |-> to])

\* absolute, from the current position, from the end
Seek == /\ pc = "idle" /\ Len(hist) < MaxOps
        /\ \E o \in {"set", "cur", "end"}, d \in 0 - total - 1 .. total + 1 :
             LET to == IF o = "set" THEN d ELSE IF o = "cur" THEN pos + d ELSE total + d IN
             /\ (o = "set" => d >= 0) /\ (o = "end" => d <= 0)
             /\ IF to < 0 \/ to > total
                THEN hist' = Op(o, d, -1, -1) /\ UNCHANGED <<pos>>      \* refused
                ELSE hist' = Op(o, d, to, to) /\ pos' = to
        /\ UNCHANGED <<total, rar, held, got, pc>>

\* the articles of a read that starts at p and ends before e
From(p) == p \div Seg + 1
To(p, e) == IF e = p THEN From(p) ELSE (e - 1) \div Seg + 1
Offset(k, e) == Min(Len_(k), e - Seg * (k - 1))

Read == /\ pc = "idle" /\ Len(hist) < MaxOps
        /\ \E n \in {-1} \cup 1 .. total :
            LET e == IF n = -1 THEN total ELSE Min(total, pos + n)
                a == From(pos)
                z == To(pos, e) IN
            IF pos = total THEN /\ hist' = Op("read", n, pos, pos) /\ got' = <<>>
                                /\ UNCHANGED <<held, pos, pc>>
            ELSE
            \* the first fetch of every article of the read
            /\ \E f \in [a .. z -> Prefixes] :
                 LET h == [k \in 1 .. MaxSegs |-> IF k \in a .. z /\ held[k] = -1
                                                THEN IF n # -1 /\ (rar \/ k = z) THEN Min(f[k], Len_(k)) ELSE Len_(k)
                                                ELSE held[k]] IN
                 \* then what is still missing
                 held' = [k \in 1 .. MaxSegs |->
                      IF k \in a .. z /\ h[k] < Offset(k, e) /\ (Faulty = "none" \/ k = 1 \/ k = z)
                      THEN Len_(k) ELSE h[k]]
            /\ pos' = e /\ hist' = Op("read", n, pos, e)
            /\ got' = [i \in 1 .. z - a + 1 |-> LET k == a + i - 1 IN
                         [k |-> k, x |-> IF k = a THEN pos - Seg * (k - 1) ELSE 0, y |-> Min(held'[k], Offset(k, e))]]
            /\ UNCHANGED pc
        /\ UNCHANGED <<total, rar>>

Stop == /\ pc = "idle" /\ Len(hist) = MaxOps /\ pc' = "done" /\ UNCHANGED <<total, rar, held, pos, hist, got>>
Next == Seek \/ Read \/ Stop
Spec == Init /\ [][Next]_vars

\* the pieces that a read puts together are the units that were asked for
RECURSIVE Units(_)
Units(g) == IF g = <<>> THEN <<>> ELSE
    LET h == Head(g) IN [i \in 1 .. (IF h.y > h.x THEN h.y - h.x ELSE 0) |-> Seg * (h.k - 1) + h.x + i - 1] \o Units(Tail(g))
Last == hist[Len(hist)]
Exact == hist # <<>> /\ Last.op = "read" => Units(got) = [i \in 1 .. Last.to - Last.from |-> Last.from + i - 1]
\* and only articles with wanted units were fetched
Needed == \A k \in 1 .. MaxSegs : held[k] # -1 =>
    \E i \in 1 .. Len(hist) : hist[i].op = "read" /\ hist[i].from < Seg * k /\ hist[i].to > Seg * (k - 1)

Emit == pc = "done" => PrintT("B|" \o ToJson([seg |-> Seg, total |-> total, rar |-> rar, hist |-> hist]))
=============================================================================
