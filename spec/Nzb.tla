-------------------------------- MODULE Nzb --------------------------------
(***************************************************************************)
(* NZB files and the tools that work on them.  A document is a sequence of *)
(* posts; a post belongs to a release, is of a kind (what its file name    *)
(* says), has a quoting style for the name in its subject and a number of  *)
(* segments.  A folder of documents is made post by post, then one tool    *)
(* works on it: rewrite (read and write again), merge (all documents into  *)
(* the one with the shortest name), split (one document into one for each  *)
(* release; the tool keeps only the posts of the current release and adds  *)
(* them to the file of that release when another release begins), sample   *)
(* (the posts of samples up to a size), rename (to the release of the      *)
(* first post; music apart), select (age or poster of the first post).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Posts,       \* set of posts [rel, kind, style, segs, big]
          MaxDocs, MaxPosts, Ops, ExtSets

VARIABLES docs,        \* sequence of documents, shortest file name first
          op, arg, pc,
          pos, cur, buf, out   \* split: next post, current release, its posts, files written

vars == <<docs, op, arg, pc, pos, cur, buf, out>>

Rels == {p.rel : p \in Posts}
Video == {"avi", "mkv", "mp4", "wmv", "vob", "m2ts"}
NoArg == [exts |-> {}, max |-> FALSE]

Init == /\ docs = <<<<>>>> /\ op = "none" /\ arg = NoArg /\ pc = "make"
        /\ pos = 1 /\ cur = 0 /\ buf = <<>> /\ out = [r \in Rels |-> <<>>]

AddPost == /\ pc = "make" /\ Len(docs[Len(docs)]) < MaxPosts
           /\ \E p \in Posts : docs' = [docs EXCEPT ![Len(docs)] = Append(@, p)]
           /\ UNCHANGED <<op, arg, pc, pos, cur, buf, out>>
NextDoc == /\ pc = "make" /\ Len(docs) < MaxDocs
           /\ docs' = Append(docs, <<>>)
           /\ UNCHANGED <<op, arg, pc, pos, cur, buf, out>>
Choose == /\ pc = "make" /\ op' \in Ops
          /\ (op' \in {"split", "sample"} => Len(docs) = 1 /\ Len(docs[1]) > 0)
          /\ (op' \in {"merge", "rename", "select"} => \A i \in 1 .. Len(docs) : Len(docs[i]) > 0)
          /\ (IF op' = "sample" THEN \E e \in ExtSets, m \in BOOLEAN : arg' = [exts |-> e, max |-> m] ELSE arg' = NoArg)
          /\ pc' = IF op' = "split" THEN "split" ELSE "done"
          /\ UNCHANGED <<docs, pos, cur, buf, out>>
\* one post of the document to split
SplitStep == /\ pc = "split" /\ pos <= Len(docs[1])
             /\ LET p == docs[1][pos] IN
                IF p.rel = cur
                THEN buf' = Append(buf, p) /\ UNCHANGED <<cur, out>>
                ELSE /\ buf' = <<p>> /\ cur' = p.rel
                     /\ out' = IF cur = 0 THEN out ELSE [out EXCEPT ![cur] = @ \o buf]
             /\ pos' = pos + 1
             /\ UNCHANGED <<docs, op, arg, pc>>
SplitEnd == /\ pc = "split" /\ pos > Len(docs[1])
            /\ out' = IF cur = 0 THEN out ELSE [out EXCEPT ![cur] = @ \o buf]
            /\ buf' = <<>> /\ pc' = "done"
            /\ UNCHANGED <<docs, op, arg, pos, cur>>
Next == AddPost \/ NextDoc \/ Choose \/ SplitStep \/ SplitEnd
Spec == Init /\ [][Next]_vars

(*------------------------------- results -------------------------------*)
OfRel(s, r) == SelectSeq(s, LAMBDA p : p.rel = r)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Merged == Cat(docs)
\* a par2 file of the sample counts as the sample ("avi" sample)
Ext(p) == IF p.kind = "par" THEN "avi" ELSE p.kind
IsSample(p) == LET e == IF arg.exts = {} THEN {"avi", "mkv"} ELSE arg.exts IN
    Ext(p) \in e /\ (arg.max => ~p.big)
Sampled == SelectSeq(docs[1], IsSample)
HasMusic(d) == \E i \in 1 .. Len(d) : d[i].kind = "mp3"

(*------------------------------ properties ------------------------------*)
\* nothing is lost while splitting, at any moment
SplitLosesNothing == pc \in {"split", "done"} /\ op = "split" =>
    \A r \in Rels : OfRel(SubSeq(docs[1], 1, pos - 1), r) = out[r] \o (IF r = cur THEN buf ELSE <<>>)
SplitIsPartition == pc = "done" /\ op = "split" => \A r \in Rels : out[r] = OfRel(docs[1], r)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
MergeLosesNothing == pc = "done" /\ op = "merge" =>
    /\ Len(Merged) = Sum([i \in 1 .. Len(docs) |-> Len(docs[i])])
    /\ \A i \in 1 .. Len(docs) : \E k \in 0 .. Len(Merged) - Len(docs[i]) :
           SubSeq(Merged, k + 1, k + Len(docs[i])) = docs[i]
\* splitting what was merged gives each release the posts of all documents in order
SplitOfMerge == pc = "done" /\ op = "merge" =>
    \A r \in Rels : OfRel(Merged, r) = Cat([i \in 1 .. Len(docs) |-> OfRel(docs[i], r)])
SampleIsPart == pc = "done" /\ op = "sample" =>
    /\ \A i \in 1 .. Len(Sampled) : IsSample(Sampled[i])
    /\ Len(Sampled) + Len(SelectSeq(docs[1], LAMBDA p : ~IsSample(p))) = Len(docs[1])

Emit == IF pc = "done"
        THEN PrintT("B|" \o ToJson([docs |-> docs, op |-> op, arg |-> arg,
                 split |-> [r \in Rels |-> out[r]], merged |-> IF op = "merge" THEN Merged ELSE <<>>,
                 sampled |-> IF op = "sample" THEN Sampled ELSE <<>>,
                 music |-> [i \in 1 .. Len(docs) |-> HasMusic(docs[i])]]))
        ELSE TRUE
=============================================================================
