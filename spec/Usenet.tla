------------------------------- MODULE Usenet -------------------------------
(***************************************************************************)
(* An SRR file from a Usenet post (usenet/srr_usenet.py).  A post has RAR  *)
(* sets (volumes of three or more articles, an SFV or none), and other     *)
(* files in the order in which they were posted.  News servers are tried   *)
(* in order; flaws make articles of some class ("first", "mid", "last" of  *)
(* a file) unusable on some servers, or leave them out of the NZB.  The    *)
(* tool looks for repacks, reads the SFVs, lists the volumes, stores the   *)
(* files and reads the headers of the volumes; it asks for the last        *)
(* article of all volumes (STAT) after the first volume.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Extras,      \* set of [k, n]: kinds of other files with a number
          MaxExtras,
          SetShapes,   \* set of [word, sfv, vols, casing, rank]
          MaxSets,
          Servers,     \* numbers of servers
          FlawKinds, MaxFlaws,
          Options,     \* set of [stat, full, group, crc, dry, cli]
          DupKinds     \* {"none", "same", "worse", "better"}

VARIABLES sets, left, post, conf, flaws, pc, mode, stored, vols, todo, statted, out, nzb

vars == <<sets, left, post, conf, flaws, pc, mode, stored, vols, todo, statted, out, nzb>>

Nfo == {"nfo"}
Kept == {"nfo", "jpg", "proofjpg", "png", "bmp", "srs", "subsfv"}
Repack == {"ich", "zed", "kere", "twenty"}
Special == {"sample", "extras", "proof", "subpack"}

\* an item of a post: an extra, the SFV of a set or a volume; dup: what a second post of the same file is like
X(e) == [t |-> "x", k |-> e.k, s |-> e.n, v |-> 0]
S(i) == [t |-> "sfv", k |-> "sfv", s |-> i, v |-> 0]
V(i, j) == [t |-> "vol", k |-> "vol", s |-> i, v |-> j]

Init == /\ sets = <<>> /\ left = {} /\ post = <<>> /\ flaws = {} /\ pc = "sets"
        /\ conf \in [n : Servers, opt : Options, down : {0, 2}, dup : DupKinds]
        /\ (conf.down > 0 => conf.n > 2)
        /\ (conf.opt.dry => conf.dup = "none" /\ conf.down = 0)
        /\ mode = "sfv" /\ stored = <<>> /\ vols = <<>> /\ todo = <<>> /\ statted = FALSE /\ out = "none" /\ nzb = "stay"

AddSet == /\ pc = "sets" /\ Len(sets) < MaxSets
          /\ \E s \in SetShapes : /\ \A i \in 1 .. Len(sets) : sets[i].rank # s.rank
                                  /\ sets' = Append(sets, s)
          /\ UNCHANGED <<left, post, conf, flaws, pc, mode, stored, vols, todo, statted, out, nzb>>
\* volumes that the post has: with "gap" the last volume in the SFV was never posted
Volumes(i) == {V(i, j) : j \in 1 .. (IF sets[i].sfv = "gap" THEN sets[i].vols - 1 ELSE sets[i].vols)}
Collect == /\ pc = "sets"
           /\ left' = UNION {Volumes(i) \cup (IF sets[i].sfv = "no" THEN {} ELSE {S(i)}) : i \in 1 .. Len(sets)}
           /\ pc' = "extras"
           /\ UNCHANGED <<sets, post, conf, flaws, mode, stored, vols, todo, statted, out, nzb>>
AddExtra == /\ pc = "extras" /\ Cardinality({x \in left : x.t = "x"}) < MaxExtras
            /\ \E e \in Extras : X(e) \notin left /\ left' = left \cup {X(e)}
            /\ UNCHANGED <<sets, post, conf, flaws, pc, mode, stored, vols, todo, statted, out, nzb>>
Collected == /\ pc = "extras" /\ left # {} /\ pc' = "post"
             /\ UNCHANGED <<sets, left, post, conf, flaws, mode, stored, vols, todo, statted, out, nzb>>
\* volumes of a set are posted one after the other; everything else in any order
PostOne == /\ pc = "post" /\ left # {}
           /\ \E x \in left :
                /\ \A y \in left : (x.t = "vol" /\ y.t = "vol" /\ y.s = x.s => y.v >= x.v)
                /\ left' = left \ {x} /\ post' = Append(post, x)
           /\ UNCHANGED <<sets, conf, flaws, pc, mode, stored, vols, todo, statted, out, nzb>>
Posted == /\ pc = "post" /\ left = {} /\ pc' = "flaws"
          /\ UNCHANGED <<sets, left, post, conf, flaws, mode, stored, vols, todo, statted, out, nzb>>

Files == {post[i] : i \in 1 .. Len(post)}
All == 1 .. conf.n
Usable(f) == f.t # "x" \/ f.k \in (Kept \ {"png"})
\* bytes of volumes are only checked when whole articles are fetched and their checksums are wanted
FlawOK(f, fl) ==
    /\ (fl.kind = "crc" /\ f.t = "vol" => fl.cls = "mid" \/ (conf.opt.full /\ conf.opt.crc))
    /\ (fl.kind = "nzb" => fl.srv = All)
    /\ (f.t = "x" \/ f.t = "sfv" => fl.cls # "mid")
AddFlaw == /\ pc = "flaws" /\ Cardinality(flaws) < MaxFlaws
           /\ \E f \in Files, c \in {"first", "mid", "last"}, k \in FlawKinds, srv \in SUBSET All :
                /\ srv # {} /\ Usable(f)
                /\ \A g \in flaws : ~(g.f = f /\ g.fl.cls = c)
                /\ LET fl == [cls |-> c, kind |-> k, srv |-> srv] IN
                   /\ FlawOK(f, fl)
                   /\ flaws' = flaws \cup {[f |-> f, fl |-> fl]}
           /\ UNCHANGED <<sets, left, post, conf, pc, mode, stored, vols, todo, statted, out, nzb>>

Begin == /\ pc = "flaws" /\ pc' = "repack"
         /\ UNCHANGED <<sets, left, post, conf, flaws, mode, stored, vols, todo, statted, out, nzb>>

(*------------------------------ the servers ------------------------------*)
Up == {i \in All : i # conf.down}
Bad(f, c) == UNION {g.fl.srv : g \in {h \in flaws : h.f = f /\ h.fl.cls = c}}
InNzb(f, c) == \A g \in flaws : ~(g.f = f /\ g.fl.cls = c /\ g.fl.kind = "nzb")
Fetch(f, c) == InNzb(f, c) /\ Up \ Bad(f, c) # {}
Stat(f) == InNzb(f, "last") /\
           Up \ UNION {g.fl.srv : g \in {h \in flaws : h.f = f /\ h.fl.cls = "last" /\ h.fl.kind = "missing"}} # {}
FetchAll(f) == \A c \in {"first", "mid", "last"} : Fetch(f, c)

(*-------------------------------- the tool --------------------------------*)
End(o, z) == /\ out' = o /\ nzb' = z /\ pc' = "done"
             /\ UNCHANGED <<sets, left, post, conf, flaws, mode, stored, vols, todo, statted>>

CheckRepack ==
    /\ pc = "repack"
    /\ LET repack == \E f \in Files : f.t = "x" /\ f.k \in Repack
           hole == \E f \in Files : f.t = "vol" /\ ~InNzb(f, "first") IN
       IF repack \/ hole THEN End("none", IF conf.opt.dry THEN "putaway" ELSE IF ~hole THEN "repacks" ELSE IF ~repack THEN "aside" ELSE "putaway")
       ELSE IF conf.opt.dry THEN End("none", "stay")
       ELSE /\ pc' = "sfv" /\ UNCHANGED <<sets, left, post, conf, flaws, mode, stored, vols, todo, statted, out, nzb>>

WithSfv == {i \in 1 .. Len(sets) : S(i) \in Files}
\* by name, those of samples, extras, proofs and subpacks at the end
Before(i, j) == LET a == sets[i].word \in Special b == sets[j].word \in Special IN
    (~a /\ b) \/ (a = b /\ sets[i].rank < sets[j].rank)
RECURSIVE Sorted(_)
Sorted(I) == IF I = {} THEN <<>> ELSE LET m == CHOOSE i \in I : \A j \in I \ {i} : Before(i, j) IN <<m>> \o Sorted(I \ {m})
VolSeq(i) == [j \in 1 .. sets[i].vols |-> V(i, j)]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
FirstVols == SelectSeq(post, LAMBDA f : f.t = "vol" /\ f.v = 1)

\* without a (usable) SFV: the volumes that follow from the names of the first ones
NoSfv == IF FirstVols = <<>> THEN End("none", "aside")
         ELSE /\ mode' = "nosfv" /\ pc' = "store"
              /\ todo' = SelectSeq(Cat([i \in 1 .. Len(FirstVols) |-> VolSeq(FirstVols[i].s)]), LAMBDA f : f \in Files)
              /\ UNCHANGED <<sets, left, post, conf, flaws, stored, vols, statted, out, nzb>>
SfvProblem(i) == IF ~FetchAll(S(i)) THEN "unread" ELSE IF sets[i].sfv = "empty" THEN "empty" ELSE "none"
FirstProblem == LET o == SelectSeq(Sorted(WithSfv), LAMBDA i : SfvProblem(i) # "none") IN IF o = <<>> THEN "none" ELSE SfvProblem(o[1])
ReadSfvs ==
    /\ pc = "sfv"
    /\ IF FirstProblem = "unread" THEN End("none", "aside")
       ELSE IF FirstProblem = "empty" \/ \A i \in WithSfv : sets[i].sfv = "other" THEN NoSfv
       ELSE IF \E i \in WithSfv : sets[i].sfv = "gap" THEN End("none", "aside")
       ELSE /\ pc' = "store" /\ mode' = "sfv"
            /\ LET o == Sorted({i \in WithSfv : sets[i].sfv # "other"}) IN todo' = Cat([k \in 1 .. Len(o) |-> VolSeq(o[k])])
            /\ UNCHANGED <<sets, left, post, conf, flaws, stored, vols, statted, out, nzb>>

Wanted == SelectSeq(post, LAMBDA f : f.t = "x" /\ f.k \in Nfo) \o SelectSeq(post, LAMBDA f : f.t = "x" /\ f.k \in Kept \ Nfo)
SfvSeq == LET o == Sorted(WithSfv) IN [k \in 1 .. Len(o) |-> S(o[k])]
Store == /\ pc = "store"
         /\ stored' = SelectSeq(Wanted, FetchAll) \o (IF mode = "sfv" THEN SfvSeq ELSE <<>>)
         /\ pc' = "vol"
         /\ UNCHANGED <<sets, left, post, conf, flaws, mode, vols, todo, statted, out, nzb>>

Volume == /\ pc = "vol" /\ todo # <<>>
          /\ LET f == Head(todo) IN
             IF Fetch(f, "first") /\ Fetch(f, "last") /\ (~statted /\ conf.opt.stat => \A i \in 1 .. Len(todo) : Stat(todo[i]))
             THEN /\ statted' = TRUE
                  /\ todo' = Tail(todo) /\ vols' = Append(vols, f)
                  /\ UNCHANGED <<sets, left, post, conf, flaws, pc, mode, stored, out, nzb>>
             ELSE End("none", "aside")
Finish == /\ pc = "vol" /\ todo = <<>> /\ End(IF mode = "sfv" THEN "srr" ELSE "nosfv", "success")

Next == AddSet \/ Collect \/ AddExtra \/ Collected \/ PostOne \/ Posted \/ AddFlaw \/ Begin \/ CheckRepack \/ ReadSfvs \/ Store \/ Volume \/ Finish
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
Done == pc = "done"
\* an NZB is only put away as done when there is an SRR of all volumes
SuccessHasSrr == Done /\ nzb = "success" => out # "none" /\ vols # <<>> /\ todo = <<>>
SrrIsSuccess == Done /\ out # "none" => nzb = "success"
\* the SRR has the volumes that an SRR from the files would have, each once
EachOnce == LET U(s) == \A i, j \in 1 .. Len(s) : s[i] = s[j] => i = j IN U(vols) /\ U(stored)
OnlyPosted == \A i \in 1 .. Len(stored) : stored[i] \in Files
AllOfTheSfvs == Done /\ out = "srr" =>
    {vols[i] : i \in 1 .. Len(vols)} = UNION {{V(i, j) : j \in 1 .. sets[i].vols} : i \in {k \in WithSfv : sets[k].sfv # "other"}}
\* one server with the article is enough
Clean == \A g \in flaws : Up \ g.fl.srv # {} /\ g.fl.kind # "nzb"
AnyServerWillDo == Done /\ Clean /\ ~conf.opt.dry /\ nzb = "aside" =>
    \/ \E i \in WithSfv : sets[i].sfv = "gap"
    \/ FirstVols = <<>>
\* articles with nothing but packed data are not needed
DataOnly == \A g \in flaws : g.f.t = "vol" /\ g.fl.cls = "mid"
MidNotNeeded == Done /\ DataOnly /\ ~conf.opt.dry /\ nzb = "aside" =>
    \/ \E i \in WithSfv : sets[i].sfv = "gap"
    \/ FirstVols = <<>>
DryDoesNothing == Done /\ conf.opt.dry => out = "none" /\ nzb # "success"

Emit == pc = "done" => PrintT("B|" \o ToJson([sets |-> sets, post |-> post, conf |-> conf, flaws |-> flaws,
    stored |-> stored, vols |-> vols, out |-> out, nzb |-> nzb]))
=============================================================================
