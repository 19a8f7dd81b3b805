------------------------------- MODULE OldSrr -------------------------------
(***************************************************************************)
(* SRRs of the first generation keep the whole recovery record of a volume *)
(* where later ones only keep its header; a flag of the SRR block in front *)
(* of the volume tells which.  Volumes of both kinds can be in one SRR     *)
(* after merging.                                                          *)
(*                                                                         *)
(* The reader goes over the SRR one block per step and must know for each  *)
(* recovery record whether its data follows.  A copy (any edit, or a merge)*)
(* consists of the blocks the reader returned; a rebuilt volume too, with  *)
(* the data of the recovery record from the SRR or computed.               *)
(*                                                                         *)
(* Faulty: "sticky" (the flag of an earlier volume stays), "lost" (the     *)
(* data is skipped and not part of the block).                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxVols, MaxCopies, Faulty

VARIABLES phase, vols, srr, pos, removed, copy, copies, out, bad
vars == <<phase, vols, srr, pos, removed, copy, copies, out, bad>>

B(t, v, x) == [t |-> t, v |-> v, x |-> x]
RRs == {"none", "old", "new"}

\* what is in the SRR for volume v: a block with data is followed by a cell with its data
Cells(v) ==
    <<B("flag", v, vols[v].kept), B("head", v, FALSE)>> \o
    (IF vols[v].rr = "none" THEN <<>> ELSE IF vols[v].kept THEN <<B("rr", v, FALSE), B("data", v, FALSE)>> ELSE <<B("rr", v, FALSE)>>) \o
    <<B("end", v, FALSE)>>
RECURSIVE AllCells(_)
AllCells(v) == IF v > Len(vols) THEN <<>> ELSE Cells(v) \o AllCells(v + 1)

\* the volume itself
Volume(v) == <<B("head", v, FALSE)>> \o (IF vols[v].rr = "none" THEN <<>> ELSE <<B("rr", v, FALSE), B("data", v, FALSE)>>) \o <<B("end", v, FALSE)>>

Init == /\ phase = "make" /\ vols = <<>> /\ srr = <<>> /\ pos = 1 /\ removed = TRUE /\ copy = <<>> /\ copies = 0
        /\ out = <<>> /\ bad = FALSE

AddVol == /\ phase = "make" /\ Len(vols) < MaxVols
          /\ \E r \in RRs, k \in BOOLEAN : vols' = Append(vols, [rr |-> r, kept |-> k])
          /\ UNCHANGED <<phase, srr, pos, removed, copy, copies, out, bad>>

Made == /\ phase = "make" /\ Len(vols) > 0
        /\ srr' = AllCells(1) /\ \E p \in {"copy", "rebuild"} : phase' = p
        /\ UNCHANGED <<vols, pos, removed, copy, copies, out, bad>>

\* one block of the reader: <<cells it takes, cells it returns, new flag>>
Now(c) == IF c.t = "flag" THEN IF Faulty = "sticky" THEN removed /\ ~c.x ELSE ~c.x ELSE removed
Takes(c) == IF c.t = "rr" /\ ~Now(c) THEN 2 ELSE 1
Returned(c) ==
    IF Takes(c) = 1 THEN <<c>>
    ELSE IF Faulty = "lost" \/ pos = Len(srr) THEN <<c>> ELSE <<c, srr[pos + 1]>>

Read ==
    /\ phase \in {"copy", "rebuild"} /\ ~bad /\ pos <= Len(srr)
    /\ LET c == srr[pos] IN
        IF c.t = "data" \/ (Takes(c) = 2 /\ (pos = Len(srr) \/ srr[(pos % Len(srr)) + 1].t # "data"))
        THEN bad' = TRUE /\ UNCHANGED <<pos, removed, copy, out>>         \* data read as a block, or a block as data
        ELSE /\ pos' = pos + Takes(c) /\ removed' = Now(c) /\ UNCHANGED bad
             /\ IF phase = "copy" THEN copy' = copy \o Returned(c) /\ UNCHANGED out
                ELSE /\ UNCHANGED copy
                     /\ out' = IF c.t = "flag" THEN Append(out, <<>>)
                               ELSE [out EXCEPT ![Len(out)] = @ \o (IF c.t = "rr" /\ Now(c) THEN <<c, B("data", c.v, FALSE)>> ELSE Returned(c))]
    /\ UNCHANGED <<phase, vols, srr, copies>>

Copied == /\ phase = "copy" /\ ~bad /\ pos > Len(srr)
          /\ srr' = copy /\ copy' = <<>> /\ pos' = 1 /\ removed' = TRUE /\ copies' = copies + 1
          /\ \E p \in IF copies + 1 < MaxCopies THEN {"copy", "rebuild"} ELSE {"rebuild"} : phase' = p
          /\ UNCHANGED <<vols, out, bad>>

Finish == /\ phase = "rebuild" /\ ~bad /\ pos > Len(srr) /\ phase' = "done"
          /\ UNCHANGED <<vols, srr, pos, removed, copy, copies, out, bad>>

Next == AddVol \/ Made \/ Read \/ Copied \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Made \/ Read \/ Copied \/ Finish)

NeverMisread == ~bad
CopiesAreEqual == copies > 0 => srr = AllCells(1)
RoundTrip == phase = "done" => out = [v \in 1 .. Len(vols) |-> Volume(v)]

Emit == phase = "done" => PrintT("B|" \o ToJson([vols |-> vols, copies |-> copies]))
=============================================================================
