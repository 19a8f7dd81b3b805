-------------------------------- MODULE Retag --------------------------------
(***************************************************************************)
(* Giving the tracks of a music release their original tags back, with the *)
(* SRR of the release.  Stored files are written to the output folder;     *)
(* every SRS is written there, used to fix its track and taken away again. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    MaxItems, Dirs,
    Modes,       \* "yes" (-y), "no" (-n), "ask"
    Places,      \* where a track can be: exact, casefile, casedir, root, none, wrong
    Olds         \* what is in the way in the output folder: none, dest (the file itself), srs (the SRS)

VARIABLES items, cfg, phase, i, out, log
vars == <<items, cfg, phase, i, out, log>>

Kinds == {"file", "music", "video"}

Init == /\ items = <<>> /\ phase = "stored" /\ i = 1 /\ out = <<>> /\ log = <<>>
        /\ cfg \in [mode : Modes, answer : {"y", "n"}, inplace : BOOLEAN]
        /\ cfg.mode = "yes" => cfg.answer = "y"

Add == /\ phase = "stored" /\ i = 1 /\ Len(items) < MaxItems
       /\ \E k \in Kinds, d \in Dirs, p \in Places, o \in Olds :
            /\ k # "music" => p = "none"
            /\ k = "file" => o # "srs"
            /\ k = "video" => o # "dest"
            /\ (p \in {"casedir", "root"}) => d # ""
            \* in place the folder of the SRS appears next to the one of other case, and hides it
            /\ cfg.inplace => p # "casedir"
            \* in place the track itself is what is in the way
            /\ (cfg.inplace /\ k = "music" /\ p \in {"exact", "wrong"}) => o = "dest"
            /\ (cfg.inplace /\ k = "music" /\ p \notin {"exact", "wrong"}) => o # "dest"
            /\ items' = Append(items, [k |-> k, d |-> d, place |-> p, old |-> o])
       /\ UNCHANGED <<cfg, phase, i, out, log>>

Begin == /\ phase = "stored" /\ items # <<>> /\ i = 1
         /\ phase' = "files"
         /\ out' = [j \in 1 .. Len(items) |->
                      [dest |-> IF items[j].old = "dest" THEN "old" ELSE "none", srs |-> IF items[j].old = "srs" THEN "old" ELSE "none"]]
         /\ log' = [j \in 1 .. Len(items) |-> "-"]
         /\ UNCHANGED <<items, cfg, i>>

MayStore(there) == ~there \/ cfg.mode = "yes" \/ (cfg.mode = "ask" /\ cfg.answer = "y")
MayFix(there) == ~there \/ cfg.mode = "yes" \/ cfg.answer = "y"

\* first pass: everything that is no SRS
File_ == /\ phase = "files" /\ i <= Len(items)
         /\ IF items[i].k = "file" /\ MayStore(out[i].dest = "old")
            THEN out' = [out EXCEPT ![i].dest = "new"] ELSE UNCHANGED out
         /\ i' = i + 1 /\ UNCHANGED <<items, cfg, phase, log>>
Turn == phase = "files" /\ i > Len(items) /\ phase' = "tracks" /\ i' = 1 /\ UNCHANGED <<items, cfg, out, log>>

\* second pass: one SRS per step
Skip == /\ phase = "tracks" /\ i <= Len(items) /\ items[i].k = "file"
        /\ i' = i + 1 /\ UNCHANGED <<items, cfg, phase, out, log>>
Track ==
    /\ phase = "tracks" /\ i <= Len(items) /\ items[i].k # "file"
    /\ LET it == items[i] IN
       IF ~MayStore(out[i].srs = "old")
       THEN log' = [log EXCEPT ![i] = "aborted"] /\ UNCHANGED out
       ELSE IF it.k = "video" THEN log' = [log EXCEPT ![i] = "skipped"] /\ out' = [out EXCEPT ![i].srs = "none"]
       ELSE IF it.place \in {"none", "wrong"} \/ ~MayFix(out[i].dest = "old")
       THEN log' = [log EXCEPT ![i] = "failed"] /\ out' = [out EXCEPT ![i].srs = "none"]
       ELSE log' = [log EXCEPT ![i] = "fixed"] /\ out' = [out EXCEPT ![i].srs = "none", ![i].dest = "new"]
    /\ i' = i + 1 /\ UNCHANGED <<items, cfg, phase>>
Finish == phase = "tracks" /\ i > Len(items) /\ phase' = "done" /\ UNCHANGED <<items, cfg, i, out, log>>

Next == Add \/ Begin \/ File_ \/ Turn \/ Skip \/ Track \/ Finish
Spec == Init /\ [][Next]_vars

Done == phase = "done"
NoSrsLeft == Done => \A j \in 1 .. Len(items) : items[j].k # "file" => out[j].srs = IF log[j] = "aborted" THEN "old" ELSE "none"
RightTracksFixed == Done => \A j \in 1 .. Len(items) :
    (items[j].k = "music" /\ items[j].place \notin {"none", "wrong"} /\ items[j].old = "none") => out[j].dest = "new"
AskedFirst == Done => \A j \in 1 .. Len(items) :
    (items[j].old = "dest" /\ out[j].dest = "new") => (cfg.mode = "yes" \/ cfg.answer = "y")
FailureHarmless == Done => \A j \in 1 .. Len(items) : log[j] \in {"failed", "aborted", "skipped"} =>
    out[j].dest = IF items[j].old = "dest" THEN "old" ELSE "none"

Emit == Done => PrintT("B|" \o ToJson([items |-> items, cfg |-> cfg, out |-> out, log |-> log,
                                         failures |-> Cardinality({j \in 1 .. Len(items) : log[j] = "failed"}),
                                         aborted |-> Cardinality({j \in 1 .. Len(items) : log[j] = "aborted"})]))
=============================================================================
