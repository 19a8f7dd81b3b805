------------------------------- MODULE Create -------------------------------
(***************************************************************************)
(* Creating an SRR or SRS file with the command line tools: questions,     *)
(* input problems, failing file operations and kills at every step.        *)
(*                                                                         *)
(* The tool writes a temporary file next to the destination and moves it   *)
(* over the destination in one step.  Protocol "inplace" and "unlink" are  *)
(* there to show that the properties notice the difference.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Tools, SrsTools, InputFaults, Answers, Dests, Protocol, OpFaults, Parts

VARIABLES tool, input, answer, dest0, opfault, pc, dest, tmp, wrote, outcome, crashed

vars == <<tool, input, answer, dest0, opfault, pc, dest, tmp, wrote, outcome, crashed>>
Frame == <<tool, input, answer, dest0, opfault>>

(* input problems that a tool notices before / after it asks about overwriting *)
Early(t, f) == IF t \notin SrsTools THEN f \in {"nofile", "badtype"} ELSE f \in {"nofile", "badtype", "toobig", "incomplete", "nodata", "notfound", "badcheck", "nocheck"}
Late(t, f) == IF t \notin SrsTools THEN f \in {"missing", "compressed", "corrupt", "corrupt2", "emptysfv", "notfirst"} ELSE FALSE

Init ==
    /\ tool \in Tools /\ input \in InputFaults[tool] /\ answer \in Answers[tool] /\ dest0 \in Dests
    /\ opfault \in (OpFaults \cup {"none"})
    /\ (input \in {"nofile", "badtype"} => opfault = "none")
    /\ pc = "start" /\ dest = dest0 /\ tmp = "none" /\ wrote = 0 /\ outcome = "none" /\ crashed = FALSE

Asks == dest0 = "old" /\ answer \in {"y", "n"}
Refused == dest0 = "old" /\ answer \in {"n", "never"}

Start ==
    /\ pc = "start"
    \* "info": the user only asked to see the sample's details
    /\ IF input = "info" THEN pc' = "end" /\ outcome' = "refused"
       ELSE pc' = (IF Early(tool, input) THEN "failed" ELSE "ask") /\ UNCHANGED outcome
    /\ UNCHANGED <<Frame, dest, tmp, wrote, crashed>>
Ask ==
    /\ pc = "ask"
    /\ IF Refused THEN pc' = "end" /\ outcome' = "refused" ELSE pc' = "open" /\ UNCHANGED outcome
    /\ UNCHANGED <<Frame, dest, tmp, wrote, crashed>>
Open ==
    /\ pc = "open"
    /\ IF opfault = "open" THEN pc' = "failed" /\ UNCHANGED <<tmp, dest>>
       ELSE pc' = "write" /\ (IF Protocol = "inplace" THEN dest' = "part" /\ UNCHANGED tmp ELSE tmp' = "part" /\ UNCHANGED dest)
    /\ UNCHANGED <<Frame, wrote, outcome, crashed>>
Write ==
    /\ pc = "write" /\ wrote < Parts
    /\ IF wrote = Parts - 1 /\ (opfault = "write" \/ Late(tool, input))
       THEN pc' = "failed" /\ UNCHANGED wrote
       ELSE wrote' = wrote + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<Frame, dest, tmp, outcome, crashed>>
Close ==
    /\ pc = "write" /\ wrote = Parts
    /\ (IF Protocol = "inplace" THEN dest' = "new" /\ UNCHANGED tmp ELSE tmp' = "new" /\ UNCHANGED dest)
    /\ pc' = IF Protocol = "inplace" THEN "done" ELSE IF Protocol = "unlink" THEN "unlink" ELSE "replace"
    /\ UNCHANGED <<Frame, wrote, outcome, crashed>>
Unlink ==
    /\ pc = "unlink" /\ dest' = "none" /\ pc' = "replace"
    /\ UNCHANGED <<Frame, tmp, wrote, outcome, crashed>>
Replace ==
    /\ pc = "replace"
    /\ IF opfault = "replace" THEN pc' = "failed" /\ UNCHANGED <<dest, tmp>>
       ELSE pc' = "done" /\ dest' = tmp /\ tmp' = "none"
    /\ UNCHANGED <<Frame, wrote, outcome, crashed>>
Done == pc = "done" /\ pc' = "end" /\ outcome' = "ok" /\ UNCHANGED <<Frame, dest, tmp, wrote, crashed>>
Cleanup ==
    /\ pc = "failed" /\ pc' = "end" /\ outcome' = "error" /\ tmp' = "none"
    /\ UNCHANGED <<Frame, dest, wrote, crashed>>
Crash == pc \notin {"end"} /\ pc' = "end" /\ crashed' = TRUE /\ UNCHANGED <<Frame, dest, tmp, wrote, outcome>>

Next == Start \/ Ask \/ Open \/ Write \/ Close \/ Unlink \/ Replace \/ Done \/ Cleanup \/ Crash
Spec == Init /\ [][Next]_vars

Ended == pc = "end"
NeverTorn == dest \in {dest0, "new"}
FailureKeepsOld == Ended /\ outcome \in {"error", "refused"} => dest = dest0 /\ tmp = "none"
SuccessIsNew == Ended /\ outcome = "ok" => dest = "new" /\ tmp = "none"
NoConsentNoChange == Refused => dest = dest0
Safe == NeverTorn /\ FailureKeepsOld /\ SuccessIsNew /\ NoConsentNoChange

Emit == (Ended /\ ~crashed) => PrintT("B|" \o ToJson([tool |-> tool, input |-> input, answer |-> answer, dest0 |-> dest0,
                                      opfault |-> opfault, outcome |-> outcome, dest |-> dest]))
=============================================================================
