------------------------------- MODULE Verify -------------------------------
(***************************************************************************)
(* Verifying extracted files against the checksums in an SRR: one file per *)
(* step.  Files without data cannot be checked.  "moved" means the right   *)
(* bytes exist under another name with the same extension; "decoy" a file  *)
(* of that extension and size with other bytes.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxFiles, Places
VARIABLES env, i, bad, missing
vars == <<env, i, bad, missing>>
Init == /\ env \in [files : UNION {[1 .. n -> Places] : n \in 0 .. MaxFiles}, auto : BOOLEAN]
        /\ i = 1 /\ bad = FALSE /\ missing = FALSE
Step ==
    /\ i <= Len(env.files) /\ i' = i + 1 /\ UNCHANGED env
    /\ LET p == env.files[i] IN
         /\ bad' = (bad \/ p = "corrupt" \/ p = "truncated")
         /\ missing' = (missing \/ p = "gone" \/ p = "decoy" \/ (p = "moved" /\ ~env.auto))
Spec == Init /\ [][Step]_vars
Done == i = Len(env.files) + 1
Good(p) == p \in {"ok", "dir", "empty", "emptygone"} \/ (p = "moved" /\ env.auto)
ZeroIffAllGood == Done => (~bad /\ ~missing) = (\A k \in 1 .. Len(env.files) : Good(env.files[k]))
Statuses == IF env.files = <<>> THEN {10} ELSE
            IF bad /\ missing THEN {1, 2} ELSE IF bad THEN {1} ELSE IF missing THEN {2} ELSE {0}
Emit == Done => PrintT("B|" \o ToJson([env |-> env, st |-> Statuses]))
=============================================================================
