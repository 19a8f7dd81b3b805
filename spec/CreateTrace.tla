---------------------------- MODULE CreateTrace ----------------------------
(* Directory snapshots recorded around every file operation of real SRR/SRS creations, checked
   against what Create allows.  One line per run:
   [dest0, snaps : sequence of [dest, tmp], outcome : "ok" | "error" | "crash", mayleave]. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, bad
vars == <<t, l, bad>>
Cur == Traces[t]
S(i) == Cur.snaps[i]
NeverTorn(s) == s.dest \in {Cur.dest0, "new"}
\* the destination changes only by moving a complete temporary file over it
Leads(a, b) == b.dest = a.dest \/ (a.dest = Cur.dest0 /\ b.dest = "new")
Final(s) ==
    CASE Cur.outcome = "ok" -> s.dest = "new" /\ s.tmp = "none"
      [] Cur.outcome = "error" -> s.dest = Cur.dest0 /\ (s.tmp = "none" \/ Cur.mayleave)
      [] OTHER -> TRUE
Clause(i) ==
    IF ~NeverTorn(S(i)) THEN "NeverTorn"
    ELSE IF i > 1 /\ ~Leads(S(IF i > 1 THEN i - 1 ELSE 1), S(i)) THEN "Protocol"
    ELSE IF i = Len(Cur.snaps) /\ ~Final(S(i)) THEN (IF Cur.outcome = "ok" THEN "SuccessIsNew" ELSE "FailureKeepsOld")
    ELSE "fine"
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = FALSE
Step ==
    /\ ~bad /\ l <= Len(Cur.snaps)
    /\ IF Clause(l) = "fine" THEN l' = l + 1 /\ bad' = FALSE
       ELSE /\ PrintT("B|" \o ToJson([trace |-> t, step |-> l, clause |-> Clause(l), snap |-> S(l)]))
            /\ bad' = TRUE /\ UNCHANGED l
    /\ UNCHANGED t
Spec == Init /\ [][Step]_vars
=============================================================================
