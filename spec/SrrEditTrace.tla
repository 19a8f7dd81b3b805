---------------------------- MODULE SrrEditTrace ----------------------------
(* Directory snapshots recorded around every file operation of real edits, checked against
   the abstract states SrrEditCrash allows.  One line per run:
   [snaps : sequence of [srr, tmp], outcome : "ok" | "error" | "crash"].
   `tmp` "part" may turn into "new" between snapshots and a temporary file may never become
   visible; what a snapshot may follow is the transitive closure of the protocol's steps. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, bad
vars == <<t, l, bad>>
Cur == Traces[t]
S(i) == Cur.snaps[i]
Torn(s) == s.srr \notin {"old", "new", "none"}
Recov(s) == s.srr \in {"old", "new"} \/ s.tmp \in {"old", "new"}
\* reachable in one or more protocol steps
Leads(a, b) ==
    \/ a = b
    \/ b.srr = a.srr                                    \* temporary file written, completed, removed
    \/ a.srr = "old" /\ b.srr = "new"                   \* swapped
    \/ a.srr = "old" /\ b.srr = "none" /\ b.tmp = "new"
    \/ a.srr = "none" /\ b.srr = "new"
Final(s) ==
    CASE Cur.outcome = "ok" -> s.srr = "new" /\ s.tmp = "none"
      [] Cur.outcome = "error" -> s.srr = "old" /\ s.tmp = "none"
      [] OTHER -> TRUE
Clause(i) ==
    IF Torn(S(i)) THEN "NeverTorn"
    ELSE IF ~Recov(S(i)) THEN "Recoverable"
    ELSE IF i > 1 /\ ~Leads(S(i - 1), S(i)) THEN "Protocol"
    ELSE IF i = Len(Cur.snaps) /\ ~Final(S(i)) THEN (IF Cur.outcome = "ok" THEN "SuccessIsNew" ELSE "FaultKeepsOld")
    ELSE "fine"
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = FALSE
Step ==
    /\ ~bad /\ l <= Len(Cur.snaps)
    /\ IF Clause(l) = "fine" THEN l' = l + 1 /\ bad' = FALSE
       ELSE /\ PrintT("B|" \o ToJson([trace |-> t, step |-> l, clause |-> Clause(l), snap |-> S(l)]))
            /\ bad' = TRUE /\ UNCHANGED l
    /\ UNCHANGED t
Spec == Init /\ [][Step]_vars
=============================================================================
