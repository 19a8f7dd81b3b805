-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of a release and its SRR.  A release directory holds volumes   *)
(* of the RAR sets, documents (nfo, proof, SFVs) and samples.  The SRR is  *)
(* made by the scan; then anything happens in any order: the archived      *)
(* files are unpacked, volumes, samples and documents are lost, the SRR    *)
(* is edited and merged, and what was lost is brought back from the SRR.   *)
(* A music release has tracks in place of RAR sets and samples; retagged   *)
(* tracks are always at hand.                                              *)
(* After MaxOps operations everything that can be brought back is brought  *)
(* back and the release is scanned again.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NSets,    \* the numbers of RAR sets (or tracks)
          Music,    \* kinds of releases: FALSE: RAR sets, TRUE: music
          MaxOps

VARIABLES cfg,      \* the release: [n, smp, proof, music]
          disk,     \* names of the files in the release directory
          stored,   \* names of the files in the SRR
          srr,      \* there is an SRR
          un,       \* sets whose archived files are at hand
          merged, tr, left, phase
vars == <<cfg, disk, stored, srr, un, merged, tr, left, phase>>

Vol(k) == <<"v1", "v2">>[k]
Smp(k) == <<"s1", "s2">>[k]
Srs(k) == <<"s1.srs", "s2.srs">>[k]
New(n) == n \o ".new"
Docs(c) == {"nfo", "sfv1"} \cup (IF c.n = 2 /\ ~c.music THEN {"sfv2"} ELSE {}) \cup (IF c.proof THEN {"proof"} ELSE {})
Vols(c) == IF c.music THEN {} ELSE {Vol(k) : k \in 1 .. c.n}
Smps(c) == {Smp(k) : k \in c.smp}
Orig(c) == Docs(c) \cup Vols(c) \cup Smps(c)
First(c) == Docs(c) \cup {Srs(k) : k \in c.smp}       \* what the scan stores

Init == /\ cfg \in {c \in [n : NSets, smp : SUBSET {1, 2}, proof : BOOLEAN, music : Music] : c.smp \subseteq 1 .. c.n /\ (c.music => c.smp = 1 .. c.n)}
        /\ disk = Orig(cfg) /\ stored = {} /\ srr = FALSE /\ un = {} /\ merged = FALSE
        /\ tr = <<>> /\ left = MaxOps /\ phase = "live"

Log(op, arg) == tr' = Append(tr, [op |-> op, arg |-> arg, disk |-> disk', stored |-> stored', un |-> un'])

\* the release is complete and nothing else is there; an earlier SRR is replaced
CanScan == disk = Orig(cfg)
DoScan == stored' = First(cfg) /\ srr' = TRUE /\ merged' = FALSE /\ UNCHANGED <<cfg, disk, un>> /\ Log("scan", "")

DoUnpack(k) == Vol(k) \in disk /\ k \notin un /\ un' = un \cup {k} /\ UNCHANGED <<cfg, disk, stored, srr, merged>> /\ Log("unpack", Vol(k))
DoRestore == srr /\ disk' = disk \cup stored /\ UNCHANGED <<cfg, stored, srr, un, merged>> /\ Log("restore", "")
\* rebuilding also writes the stored files
DoRebuild == srr /\ ~cfg.music /\ un = 1 .. cfg.n /\ disk' = disk \cup Vols(cfg) \cup stored /\ UNCHANGED <<cfg, stored, srr, un, merged>> /\ Log("rebuild", "")
SrsThere(k) == {n \in {Srs(k), New(Srs(k))} : n \in disk}
CanSample(k) == k \in cfg.smp /\ SrsThere(k) # {} /\ (cfg.music \/ k \in un \/ Vol(k) \in disk)
DoSample(k) == CanSample(k) /\ disk' = disk \cup {Smp(k)} /\ UNCHANGED <<cfg, stored, srr, un, merged>>
               /\ Log("sample", CHOOSE n \in SrsThere(k) : TRUE)
\* the unpacked files are all there and right, or not
DoVerify == srr /\ ~cfg.music /\ UNCHANGED <<cfg, disk, stored, srr, un, merged>> /\ Log("verify", IF un = 1 .. cfg.n THEN "good" ELSE "bad")
DoTidy == disk' = disk \cap Orig(cfg) /\ UNCHANGED <<cfg, stored, srr, un, merged>> /\ Log("tidy", "")

\* losses: volumes only when their files are at hand, sources only when the volumes are there
LoseVols(K) == /\ srr /\ K \subseteq un /\ \A k \in K : Vol(k) \in disk
               /\ disk' = disk \ {Vol(k) : k \in K} /\ UNCHANGED <<cfg, stored, srr, un, merged>> /\ Log("lose", "vols")
LoseSrc(k) == k \in un /\ Vol(k) \in disk /\ un' = un \ {k} /\ UNCHANGED <<cfg, disk, stored, srr, merged>> /\ Log("forget", Vol(k))
LoseSmps == srr /\ disk' = disk \ Smps(cfg) /\ disk' # disk /\ UNCHANGED <<cfg, stored, srr, un, merged>> /\ Log("lose", "samples")
LoseDocs == srr /\ disk' = disk \ Docs(cfg) /\ disk' # disk /\ UNCHANGED <<cfg, stored, srr, un, merged>> /\ Log("lose", "docs")

\* edits of the SRR
Add == srr /\ "extra" \notin stored /\ stored' = stored \cup {"extra"} /\ UNCHANGED <<cfg, disk, srr, un, merged>> /\ Log("add", "extra")
Few == Cardinality({j \in 1 .. Len(tr) : tr[j].op \in {"remove", "rename"}}) < 2
Remove(n) == Few /\ n \in stored /\ stored' = stored \ {n} /\ UNCHANGED <<cfg, disk, srr, un, merged>> /\ Log("remove", n)
Rename(n) == /\ Few /\ n \in First(cfg) /\ n \in stored /\ New(n) \notin stored /\ stored' = (stored \ {n}) \cup {New(n)}
             /\ UNCHANGED <<cfg, disk, srr, un, merged>> /\ Log("rename", n)
Merge == srr /\ ~merged /\ merged' = TRUE /\ stored' = stored \cup {"other"} /\ UNCHANGED <<cfg, disk, srr, un>> /\ Log("merge", "")

Live == /\ phase = "live" /\ left > 0 /\ left' = left - 1 /\ phase' = IF left = 1 THEN "restore" ELSE "live"
        /\ \/ ~srr /\ CanScan /\ DoScan
           \/ srr /\ CanScan /\ DoScan
           \/ \E k \in 1 .. cfg.n : DoUnpack(k) \/ LoseSrc(k) \/ DoSample(k)
           \/ srr /\ \E k \in 1 .. cfg.n : DoUnpack(k)
           \/ DoVerify \/ DoRestore \/ DoRebuild \/ LoseSmps \/ LoseDocs \/ Add \/ Merge
           \/ srr /\ disk \ Orig(cfg) # {} /\ DoTidy
           \/ \E K \in (SUBSET (1 .. cfg.n)) \ {{}} : LoseVols(K)
           \/ \E n \in stored : Remove(n) \/ Rename(n)

\* at last everything comes back
Step(p, q) == phase = p /\ phase' = q /\ UNCHANGED left
Skip == UNCHANGED <<cfg, disk, stored, srr, un, merged, tr>>
End == \/ Step("restore", "unpack") /\ (IF srr THEN DoRestore ELSE Skip)
       \/ phase = "unpack" /\ UNCHANGED <<left, phase>> /\ \E k \in 1 .. cfg.n : DoUnpack(k)
       \/ Step("unpack", "rebuild") /\ (\A k \in 1 .. cfg.n : Vol(k) \in disk => k \in un) /\ Skip
       \/ Step("rebuild", "sample") /\ (IF srr /\ ~cfg.music THEN DoRebuild ELSE Skip)
       \/ phase = "sample" /\ UNCHANGED <<left, phase>> /\ \E k \in 1 .. cfg.n : Smp(k) \notin disk /\ DoSample(k)
       \/ Step("sample", "tidy") /\ (\A k \in 1 .. cfg.n : Smp(k) \in disk \/ ~CanSample(k)) /\ Skip
       \/ Step("tidy", "scan") /\ DoTidy
       \/ Step("scan", "done") /\ (IF CanScan THEN DoScan ELSE Skip)
Next == Live \/ End
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Removed(n) == \E j \in 1 .. Len(tr) : tr[j].op \in {"remove", "rename"} /\ tr[j].arg \in {n, New(n)}
\* what is needed to make the volumes is never lost
Sources == ~cfg.music => \A k \in 1 .. cfg.n : Vol(k) \in disk \/ (srr /\ k \in un)
\* whatever was lost comes back, but for what was taken out of the SRR (or got another name in it)
Complete == Done => \A n \in Orig(cfg) : n \in disk \/ Removed(n) \/ (n \in Smps(cfg) /\ Removed(n \o ".srs"))
AllVolumes == Done => Vols(cfg) \subseteq disk
\* without edits the release is complete again and gives the first SRR again
Again == Done => ((\A j \in 1 .. Len(tr) : tr[j].op \notin {"remove", "rename"}) => disk = Orig(cfg) /\ stored = First(cfg))
SameContent == \A j \in 1 .. Len(tr) : tr[j].op = "scan" => tr[j].stored = First(cfg)

Emit == Done => PrintT("B|" \o ToJson([cfg |-> cfg, tr |-> tr]))
=============================================================================
