-------------------------------- MODULE Oso --------------------------------
(***************************************************************************)
(* The OpenSubtitles hash (size + sum of the first and the last K words)   *)
(* of a file that is spread over volumes, computed by a reader that only   *)
(* sees one volume's part at a time.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K,         \* words in the head and in the tail
          MaxLen, Cuts, Mod

VARIABLES size, chunks, phase, pos, left, sum
vars == <<size, chunks, phase, pos, left, sum>>

Word(p) == (7 * p * p + 3 * p + 1) % Mod           \* the word at position p of the file
RECURSIVE Sum(_, _)
Sum(p, n) == IF n = 0 THEN 0 ELSE (Word(p) + Sum(p + 1, n - 1)) % Mod
Plain == IF size < K THEN 0 - 1 ELSE (size + Sum(0, K) + Sum(size - K, K)) % Mod

Start(i) == LET F[j \in 0 .. Len(chunks)] == IF j = 0 THEN 0 ELSE chunks[j] + F[j - 1] IN F[i - 1]
At(p) == CHOOSE i \in 1 .. Len(chunks) : Start(i) <= p /\ p < Start(i) + chunks[i]

RECURSIVE Total(_)
Total(c) == IF c = <<>> THEN 0 ELSE Head(c) + Total(Tail(c))
Init == /\ size \in 1 .. MaxLen
        /\ chunks \in {c \in UNION {[1 .. n -> 1 .. size] : n \in 1 .. Cuts} : Total(c) = size}
        /\ phase = "head" /\ pos = 0 /\ left = K /\ sum = 0
\* read up to the end of the volume the position is in
Read == /\ phase \in {"head", "tail"} /\ size >= K /\ left > 0
        /\ LET i == At(pos)
               have == Start(i) + chunks[i] - pos
               take == IF left < have THEN left ELSE have
           IN /\ sum' = (sum + Sum(pos, take)) % Mod /\ pos' = pos + take /\ left' = left - take
        /\ UNCHANGED <<size, chunks, phase>>
Turn == phase = "head" /\ left = 0 /\ phase' = "tail" /\ pos' = size - K /\ left' = K /\ UNCHANGED <<size, chunks, sum>>
Refuse == phase = "head" /\ size < K /\ phase' = "none" /\ UNCHANGED <<size, chunks, pos, left, sum>>
End == phase = "tail" /\ left = 0 /\ phase' = "done" /\ sum' = (sum + size) % Mod /\ UNCHANGED <<size, chunks, pos, left>>
Spec == Init /\ [][Read \/ Turn \/ Refuse \/ End]_vars

(*-- properties --*)
HashOfPlainFile == phase = "done" => sum = Plain
OnlySmallFilesRefused == (phase = "none") => size < K
InFile == left > 0 /\ size >= K => pos < size
Emit == IF phase \in {"done", "none"} THEN PrintT("B|" \o ToJson([size |-> size, chunks |-> chunks, has |-> phase = "done"])) ELSE TRUE
=============================================================================
