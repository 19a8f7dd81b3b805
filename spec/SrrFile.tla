------------------------------ MODULE SrrFile ------------------------------
(***************************************************************************)
(* An SRR file as a sequence of top-level parts, and what each operation   *)
(* on it means.  Shared by SrrStore (edits), SrrList (listing), SrrMerge   *)
(* and Fingerprint.                                                        *)
(*   [k |-> "app", n |-> name, d |-> 0]        header with application     *)
(*   [k |-> "st",  n |-> name, d |-> data id]  stored file                 *)
(*   [k |-> "vol", n |-> volume, d |-> variant] one RAR volume's headers   *)
(*   [k |-> "oso", n |-> name, d |-> data id]  ISDb hash                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

App(n) == [k |-> "app", n |-> n, d |-> 0]
St(n, d) == [k |-> "st", n |-> n, d |-> d]
Vol(n, d) == [k |-> "vol", n |-> n, d |-> d]
Oso(n, d) == [k |-> "oso", n |-> n, d |-> d]

Only(s, kk) == SelectSeq(s, LAMBDA b : b.k = kk)
Except(s, kk) == SelectSeq(s, LAMBDA b : b.k # kk)
StoredOf(s) == Only(s, "st")
RestOf(s) == Except(s, "st")
Names(s) == {s[i].n : i \in {j \in 1 .. Len(s) : s[j].k = "st"}}
Range(s) == {s[i] : i \in 1 .. Len(s)}

FirstVol(s) == IF \E i \in 1 .. Len(s) : s[i].k = "vol"
               THEN CHOOSE i \in 1 .. Len(s) : s[i].k = "vol" /\ \A j \in 1 .. i - 1 : s[j].k # "vol"
               ELSE Len(s) + 1

\* stored files go right before the first volume (at the end of an SRR without volumes)
InsertStored(s, new) == LET p == FirstVol(s) IN SubSeq(s, 1, p - 1) \o new \o SubSeq(s, p, Len(s))
RemoveNames(s, names) == SelectSeq(s, LAMBDA b : ~(b.k = "st" /\ b.n \in names))
FirstNamed(s, n) == CHOOSE i \in 1 .. Len(s) : s[i].k = "st" /\ s[i].n = n /\ \A j \in 1 .. i - 1 : ~(s[j].k = "st" /\ s[j].n = n)
RenameFirst(s, a, b) == LET p == FirstNamed(s, a) IN [s EXCEPT ![p].n = b]

\* merging: one header, then all stored files, then everything else, each in input order
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
FirstApp(ss) == LET a == SelectSeq(Only(Flat(ss), "app"), LAMBDA b : b.n # "")
                IN IF a = <<>> THEN "" ELSE a[1].n
MergeSrr(ss, app) ==
    LET all == Flat(ss)
    IN <<App(IF app # "" THEN app ELSE FirstApp(ss))>> \o StoredOf(all)
       \o SelectSeq(all, LAMBDA b : b.k \notin {"st", "app"})
=============================================================================
