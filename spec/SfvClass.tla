----------------------------- MODULE SfvClass -----------------------------
(* Which SFV files of a release are about the release itself: their volumes   *)
(* go into the SRR.  Subtitles, proofs, covers, codecs and fixes that are in  *)
(* folders of their own are only stored as SFV, except when the name of the   *)
(* release says that it is what the release is about.  When nothing is left,  *)
(* the SFVs with more than one file or with music are taken.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Tokens, Folders, Sets, Releases, MaxSfvs

VARIABLES rel, sfvs, pc, wanted, k
vars == << rel, sfvs, pc, wanted, k >>

Init == rel \in Releases /\ sfvs = << >> /\ pc = "build" /\ wanted = {} /\ k = 1
ProofSets == {"image", "text", "gone", "jpg"}
Put == /\ pc = "build" /\ Len(sfvs) < MaxSfvs
       /\ \E t \in Tokens, f \in Folders, s \in Sets :
             /\ (f # "Proof" => s \notin {"gone", "jpg", "text"})
             /\ sfvs' = Append(sfvs, [tok |-> t, dir |-> f, set |-> s])
       /\ UNCHANGED << rel, pc, wanted, k >>
Begin == pc = "build" /\ sfvs # << >> /\ pc' = "sort" /\ UNCHANGED << rel, sfvs, wanted, k >>

(* what the name of the release says *)
SubRelease == rel \in {"subpack", "vobsub", "subtitle", "sub.pack"}
AnySubs == SubRelease \/ rel \in {"subs", "subfix"}
NameOk(t) == CASE t = "plain" -> TRUE
               [] t = "vobsubs" -> SubRelease
               [] t = "subtitles" -> SubRelease
               [] t = "subs" -> AnySubs
               [] t \in {"subscd", "subsflac", "subszero"} -> TRUE      \* a disc or music with subs in its name
SubFolders == {"Subs", "VobSubs", "CZSubs", "Codec", "Covers", "Subs/CD1", "Subs.CD2"}
FolderOk(e) == CASE e.dir \in SubFolders -> FALSE
                 [] e.dir = "Proof" -> e.set \notin {"image", "gone", "jpg", "music"}      \* one file that is an image or no archive
                 [] e.dir = "My.SubPack" -> rel = "subpack"
                 [] e.dir = "A.SubFix" -> rel = "subfix"
                 [] e.dir = "DiRFiX" -> rel \in {"fix", "subfix"}
                 [] OTHER -> TRUE
Sort == /\ pc = "sort" /\ k <= Len(sfvs)
        /\ wanted' = (IF NameOk(sfvs[k].tok) /\ FolderOk(sfvs[k]) THEN wanted \cup {k} ELSE wanted)
        /\ k' = k + 1 /\ UNCHANGED << rel, sfvs, pc >>
Several(e) == e.set \in {"many", "music"}
LastResort == /\ pc = "sort" /\ k > Len(sfvs)
              /\ wanted' = (IF wanted = {} THEN { j \in 1..Len(sfvs) : Several(sfvs[j]) } ELSE wanted)
              /\ pc' = "done" /\ UNCHANGED << rel, sfvs, k >>
Spec == Init /\ [][Put \/ Begin \/ Sort \/ LastResort]_vars

(* nothing of subtitles in a release that is about something else and has an SFV for that *)
OwnFirst == pc = "done" /\ (\E j \in 1..Len(sfvs) : sfvs[j].tok = "plain" /\ sfvs[j].dir \in {"", "CD1"})
            => \A j \in wanted : sfvs[j].dir \notin SubFolders
PlainIn == pc = "done" => \A j \in 1..Len(sfvs) : sfvs[j].tok = "plain" /\ sfvs[j].dir \in {"", "CD1"} => j \in wanted
NeverNone == pc = "done" /\ (\E j \in 1..Len(sfvs) : Several(sfvs[j])) => wanted # {}

Emit == IF pc = "done" THEN PrintT("B|" \o ToJson([rel |-> rel, sfvs |-> sfvs, wanted |-> wanted])) ELSE TRUE
=============================================================================
