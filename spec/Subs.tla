-------------------------------- MODULE Subs --------------------------------
(***************************************************************************)
(* SRR files of subtitle archives, which are archives in archives.  For    *)
(* every archive of the SFV: extract it, note the languages of the index   *)
(* files in it, do the same for the archives in it and store their SRRs in *)
(* its own.  An archive that cannot be extracted gets no SRR and does not  *)
(* stop the others.                                                        *)
(*                                                                         *)
(* The archives are a forest given as a sequence of nodes in preorder,     *)
(* each with its depth; the tool is a stack of the archives it is in.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
    MaxNodes,
    MaxDepth,
    Idx,       \* index files in an archive
    Sfvs,      \* "good": lists the volumes, "bare": lists nothing, but has the name of the archive
    Olds       \* what is at the place of the first SRR already: "none", "yes" (replace it), "no"

VARIABLES phase, nodes, opt, i, stack, diz, made
vars == <<phase, nodes, opt, i, stack, diz, made>>

Node == [depth : 1 .. MaxDepth, idx : Idx, bad : BOOLEAN]
Init ==
    /\ opt \in [sfv : Sfvs, old : Olds]
    /\ phase = "build" /\ nodes = <<>> /\ i = 1 /\ stack = <<>> /\ diz = <<>> /\ made = {}

Grow ==
    /\ phase = "build" /\ Len(nodes) < MaxNodes
    /\ \E n \in Node :
         /\ n.depth <= (IF nodes = <<>> THEN 1 ELSE nodes[Len(nodes)].depth + 1)
         /\ (opt.sfv = "bare" /\ n.depth = 1 => nodes = <<>>)
         /\ nodes' = Append(nodes, n)
    /\ UNCHANGED <<phase, opt, i, stack, diz, made>>
Start == phase = "build" /\ nodes # <<>> /\ phase' = "run" /\ UNCHANGED <<nodes, opt, i, stack, diz, made>>

Top == stack[Len(stack)]
Deeper(k) == stack # <<>> /\ nodes[k].depth > nodes[Top].depth
\* the end of the archive on top: its SRR is made, with those of the archives in it (they are made before it)
Leave ==
    /\ phase = "run" /\ stack # <<>>
    /\ (IF i > Len(nodes) THEN TRUE ELSE ~Deeper(i))
    /\ made' = made \cup {Top}
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ UNCHANGED <<phase, nodes, opt, i, diz>>
\* the next node that is not in the archive node k
RECURSIVE After(_, _)
After(k, d) == IF k > Len(nodes) THEN k ELSE IF nodes[k].depth <= d THEN k ELSE After(k + 1, d)
Enter ==
    /\ phase = "run" /\ i <= Len(nodes)
    /\ (stack = <<>> \/ Deeper(i))
    /\ IF nodes[i].bad
       THEN i' = After(i + 1, nodes[i].depth) /\ UNCHANGED <<stack, diz>>
       ELSE /\ i' = i + 1
            /\ stack' = Append(stack, i)
            /\ diz' = diz \o [j \in 1 .. nodes[i].idx |-> <<i, j>>]
    /\ UNCHANGED <<phase, nodes, opt, made>>
Finish == phase = "run" /\ i > Len(nodes) /\ stack = <<>> /\ phase' = "done" /\ UNCHANGED <<nodes, opt, i, stack, diz, made>>

Next == Grow \/ Start \/ Leave \/ Enter \/ Finish
Spec == Init /\ [][Next]_vars

\* by structure: an archive has an SRR if it and everything around it can be extracted
RECURSIVE Parent(_, _)
Parent(k, d) == IF k = 0 THEN 0 ELSE IF nodes[k].depth < d THEN k ELSE Parent(k - 1, d)
Up(k) == Parent(k - 1, nodes[k].depth)
RECURSIVE Good(_)
Good(k) == IF k = 0 THEN TRUE ELSE ~nodes[k].bad /\ Good(Up(k))
MadeRight == phase = "done" => made = {k \in 1 .. Len(nodes) : Good(k)}
LanguagesRight == phase = "done" => {diz[j][1] : j \in 1 .. Len(diz)} = {k \in made : nodes[k].idx > 0}
InOrder == \A j \in 1 .. Len(diz) : \A l \in 1 .. j - 1 : diz[l][1] <= diz[j][1]

Emit == phase = "done" =>
    PrintT("B|" \o ToJson([nodes |-> nodes, opt |-> opt, made |-> made, up |-> [k \in 1 .. Len(nodes) |-> Up(k)], diz |-> diz]))
=============================================================================
