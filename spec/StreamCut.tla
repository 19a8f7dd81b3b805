----------------------------- MODULE StreamCut -----------------------------
(***************************************************************************)
(* Looking up the beginning of a sample in a large file that is read in    *)
(* windows of R cells: each window is searched together with the one       *)
(* before it, from the place where a match could have been missed.         *)
(* Where the sample begins, partial copies of its beginning and the end of *)
(* the file are placed everywhere relative to the windows.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    R,          \* cells in a window
    S,          \* cells in a signature
    MaxLen,     \* cells in the file
    Back        \* how far in front of the end of the previous window the search starts (S is right)

VARIABLES cfg, have, at, found
vars == <<cfg, have, at, found>>

(* the file: cell i is k when it is the k-th cell of the sample or of a partial copy, else 0 *)
File == [i \in 1 .. cfg.len |->
            IF i > cfg.at /\ i <= cfg.at + cfg.n THEN i - cfg.at
            ELSE IF cfg.copy > 0 /\ i >= cfg.copy /\ i < cfg.copy + cfg.k THEN i - cfg.copy + 1 ELSE 0]
SigLen == IF cfg.n < S THEN cfg.n ELSE S
Hit(i) == i >= 0 /\ i + SigLen <= cfg.len /\ \A k \in 1 .. SigLen : File[i + k] = k      \* at offset i
Hits == {i \in 0 .. cfg.len : Hit(i)}

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Init ==
    /\ cfg \in {c \in [len : 1 .. MaxLen, at : 0 .. MaxLen, n : 1 .. R + 2, copy : 0 .. MaxLen, k : 1 .. S - 1] :
                   /\ c.at + c.n <= c.len
                   /\ c.copy = 0 => c.k = 1
                   /\ c.copy > 0 => (c.copy + c.k - 1 <= c.at \/ c.copy > c.at + c.n) /\ c.copy + c.k - 1 <= c.len
                   /\ c.n <= S - 1 => (c.copy = 0 \/ c.k < c.n)}
    /\ have = 0 /\ at = 0 /\ found = -2

(* one more window: [have, at) is the previous one, [at, end) the new one *)
Window ==
    /\ found = -2 /\ at < cfg.len
    /\ LET end == Min(at + R, cfg.len)
           from == IF at = 0 THEN 0 ELSE Max(have, at - Back)
           H == {i \in Hits : i >= from /\ i + SigLen <= end}
       IN IF H # {} THEN /\ found' = (CHOOSE i \in H : \A k \in H : i <= k) /\ UNCHANGED <<have, at>>
          ELSE /\ have' = at /\ at' = end /\ UNCHANGED found
    /\ UNCHANGED cfg
NoMore == /\ found = -2 /\ at >= cfg.len /\ found' = -1 /\ UNCHANGED <<cfg, have, at>>
Next == Window \/ NoMore
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sound == found >= 0 => Hit(found)
Complete == found = -1 => Hits = {}
Earliest == found >= 0 => \A i \in Hits : found <= i
Ends == <>(found # -2)
Emit == found = -2 \/ PrintT("B|" \o ToJson([cfg |-> cfg, found |-> found]))
=============================================================================
