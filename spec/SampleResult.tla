---------------------------- MODULE SampleResult ----------------------------
(***************************************************************************)
(* What happens on disk when a sample or music file is rebuilt: the main   *)
(* file is searched, the data extracted, the user asked, the result        *)
(* written under a temporary name, checked, and moved or removed.          *)
(*                                                                         *)
(* `dest0` is what is at the place of the result: nothing, another file,   *)
(* or ("source") the main file itself, which is usual when music is        *)
(* retagged in place; `way` is how the source and the output folder are    *)
(* named then: the same way, the source or the output folder by way of a   *)
(* link, or with dots in its path.  Protocols "direct", "unlink" and       *)
(* "names" (which takes files for the same one by their names) are here to *)
(* show that the properties notice them.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Kinds, Verdicts, Ways, Dests, Answers, Protocol, OpFaults

VARIABLES cfg, pc, dest, src, tmp, outcome, crashed
vars == <<cfg, pc, dest, src, tmp, outcome, crashed>>

Init ==
    /\ cfg \in [kind : Kinds, verdict : Verdicts, dest0 : Dests, answer : Answers, keep : BOOLEAN, way : Ways, op : OpFaults \cup {"none"}]
    /\ (cfg.dest0 # "source" => cfg.way = "same")
    /\ pc = "locate" /\ dest = cfg.dest0 /\ src = "orig" /\ tmp = "none" /\ outcome = "none" /\ crashed = FALSE

Exists == cfg.dest0 # "none"
Refused == Exists /\ cfg.answer = "n"
(* the destination and the source are the same file *)
Same == cfg.dest0 = "source"
(* ... and seen to be the same *)
SeenSame == Same /\ (Protocol = "names" => cfg.way = "same")
PutDest(x) == dest' = x /\ src' = (IF Same THEN x ELSE src)

Locate ==
    /\ pc = "locate"
    /\ pc' = CASE cfg.verdict = "badsrs" -> "failed" [] cfg.verdict = "notfound" -> "failed" [] OTHER -> "extract"
    /\ UNCHANGED <<cfg, dest, src, tmp, outcome, crashed>>
Extract ==
    /\ pc = "extract" /\ pc' = (IF cfg.verdict = "short" THEN "failed" ELSE "ask")
    /\ UNCHANGED <<cfg, dest, src, tmp, outcome, crashed>>
Ask ==
    /\ pc = "ask" /\ pc' = (IF Refused THEN "refused" ELSE "write")
    /\ UNCHANGED <<cfg, dest, src, tmp, outcome, crashed>>
Write ==
    /\ pc = "write"
    /\ IF Protocol = "direct" THEN PutDest("part") /\ UNCHANGED tmp ELSE tmp' = "part" /\ UNCHANGED <<dest, src>>
    /\ pc' = IF cfg.op = "write" THEN "failed" ELSE "check"
    /\ UNCHANGED <<cfg, outcome, crashed>>
Result == IF cfg.verdict = "ok" THEN "new" ELSE "bad"
Check ==
    /\ pc = "check"
    /\ IF Protocol = "direct" THEN PutDest(Result) /\ UNCHANGED tmp ELSE tmp' = Result /\ UNCHANGED <<dest, src>>
    /\ pc' = CASE cfg.verdict = "ok" -> (IF Protocol = "direct" THEN "done" ELSE IF Protocol = "unlink" THEN "unlink" ELSE "replace")
               [] cfg.verdict # "ok" /\ cfg.keep /\ ~(cfg.kind = "music" /\ SeenSame) -> "keep"
               [] OTHER -> "remove"
    /\ UNCHANGED <<cfg, outcome, crashed>>
Unlink == pc = "unlink" /\ PutDest("none") /\ pc' = "replace" /\ UNCHANGED <<cfg, tmp, outcome, crashed>>
Replace ==
    /\ pc \in {"replace", "keep"}
    /\ IF cfg.op = "replace" THEN pc' = "failed" /\ UNCHANGED <<dest, src, tmp>>
       ELSE PutDest(tmp) /\ tmp' = "none" /\ pc' = (IF pc = "keep" THEN "failed" ELSE "done")
    /\ UNCHANGED <<cfg, outcome, crashed>>
(* a failed rebuild of music over its own source: the temporary file is kept with -k *)
Remove == pc = "remove" /\ tmp' = (IF cfg.keep THEN tmp ELSE "none") /\ pc' = "end" /\ outcome' = "error" /\ UNCHANGED <<cfg, dest, src, crashed>>
Done == pc = "done" /\ pc' = "end" /\ outcome' = "ok" /\ UNCHANGED <<cfg, dest, src, tmp, crashed>>
Failed == pc \in {"failed", "refused"} /\ pc' = "end" /\ outcome' = "error" /\ tmp' = "none" /\ UNCHANGED <<cfg, dest, src, crashed>>
Crash == pc # "end" /\ pc' = "end" /\ crashed' = TRUE /\ UNCHANGED <<cfg, dest, src, tmp, outcome>>

Next == Locate \/ Extract \/ Ask \/ Write \/ Check \/ Unlink \/ Replace \/ Remove \/ Done \/ Failed \/ Crash
Spec == Init /\ [][Next]_vars

Ended == pc = "end"
Kept == cfg.keep /\ cfg.verdict = "mismatch" /\ ~Refused
SuccessMeansRight == (Ended /\ outcome = "ok") => dest = "new" /\ cfg.verdict = "ok" /\ tmp = "none"
FailureHarmless == (Ended /\ outcome = "error") => (IF Kept THEN dest \in {cfg.dest0, "bad"} ELSE dest = cfg.dest0 /\ tmp = "none")
NeverTorn == dest \in {cfg.dest0, "new"} \cup (IF Kept THEN {"bad"} ELSE {})
SourceSafe == IF Same /\ ~Refused /\ cfg.kind = "video" /\ Kept THEN TRUE ELSE src \in {"orig", IF Same /\ ~Refused THEN "new" ELSE "orig"}
ConsentNeeded == Refused => dest = cfg.dest0 /\ src = "orig"
Safe == SuccessMeansRight /\ FailureHarmless /\ NeverTorn /\ SourceSafe /\ ConsentNeeded

Emit == (Ended /\ ~crashed) => PrintT("B|" \o ToJson([cfg |-> cfg, outcome |-> outcome, dest |-> dest, kept |-> Kept]))
=============================================================================
