---------------------------- MODULE SrrEditCrash ----------------------------
(***************************************************************************)
(* The replace protocol behind every stored-file edit, with a fault or a   *)
(* crash possible at every file operation.                                 *)
(*   srr  what is found under the SRR's name: "old" "new" "none" "part"    *)
(*   tmp  what the temporary files hold:      "none" "part" "old" "new"    *)
(* PROTOCOL "atomic" is the protocol the code must follow; "removefirst"   *)
(* (delete, then rename) is the design the code had originally: TLC shows  *)
(* that it loses the SRR when the rename fails.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Protocol, Chunks     \* number of write calls needed for a complete file
VARIABLES srr, tmp, written, pc, outcome
vars == <<srr, tmp, written, pc, outcome>>

Init == srr = "old" /\ tmp = "none" /\ written = 0 /\ pc = "create" /\ outcome = "running"

Create == pc = "create" /\ tmp' = "part" /\ pc' = "write" /\ UNCHANGED <<srr, written, outcome>>
Write ==
    /\ pc = "write" /\ written < Chunks
    /\ written' = written + 1
    /\ tmp' = IF written' = Chunks THEN "new" ELSE "part"
    /\ pc' = IF written' = Chunks THEN "swap" ELSE "write"
    /\ UNCHANGED <<srr, outcome>>
Swap ==
    /\ pc = "swap" /\ Protocol = "atomic"
    /\ srr' = "new" /\ tmp' = "none" /\ pc' = "end" /\ outcome' = "ok" /\ UNCHANGED written
RemoveOld ==
    /\ pc = "swap" /\ Protocol = "removefirst"
    /\ srr' = "none" /\ pc' = "rename" /\ UNCHANGED <<tmp, written, outcome>>
RenameNew ==
    /\ pc = "rename"
    /\ srr' = "new" /\ tmp' = "none" /\ pc' = "end" /\ outcome' = "ok" /\ UNCHANGED written

\* the operation about to run fails: the handler removes the temporary file, the call raises
Fault ==
    /\ outcome = "running" /\ pc \in {"create", "write", "swap", "rename"}
    /\ pc' = "cleanup" /\ UNCHANGED <<srr, tmp, written, outcome>>
Cleanup ==
    /\ pc = "cleanup"
    /\ tmp' = "none" /\ pc' = "end" /\ outcome' = "error" /\ UNCHANGED <<srr, written>>
Crash == outcome = "running" /\ pc' = "end" /\ outcome' = "crash" /\ UNCHANGED <<srr, tmp, written>>

Next == Create \/ Write \/ Swap \/ RemoveOld \/ RenameNew \/ Fault \/ Cleanup \/ Crash
Spec == Init /\ [][Next]_vars

NeverTorn == srr \in {"old", "new", "none"}
Recoverable == srr \in {"old", "new"} \/ tmp \in {"old", "new"}
FaultKeepsOld == outcome = "error" => srr = "old" /\ tmp = "none"
SuccessIsNew == outcome = "ok" => srr = "new" /\ tmp = "none"
Safe == NeverTorn /\ Recoverable /\ FaultKeepsOld /\ SuccessIsNew
=============================================================================
