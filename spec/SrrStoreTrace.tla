--------------------------- MODULE SrrStoreTrace ---------------------------
(* Histories recorded from the real code, checked against the actions of SrrStore. *)
EXTENDS SrrFile, TLC, Json

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)      \* one line per history: [init, disk, base, bad, ops]

VARIABLES t, l, srr, bad
vars == <<t, l, srr, bad>>

Rng(s) == {s[i] : i \in 1 .. Len(s)}
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ srr = Traces[t].init /\ bad = FALSE

Cur == Traces[t]
Ev == Cur.ops[l]
DiskOf(p) == LET m == {e \in Rng(Cur.disk) : e.n = p} IN IF m = {} THEN -1 ELSE (CHOOSE e \in m : TRUE).d
BaseOf(p) == (CHOOSE e \in Rng(Cur.base) : e.p = p).b
SName(p, paths) == IF paths THEN p ELSE BaseOf(p)

AddRes == IF \E n \in Names(srr) : n \in Rng(Ev.req) THEN "dupe"
          ELSE IF \E i \in 1 .. Len(Ev.req) : DiskOf(Ev.req[i]) >= 0 /\ SName(Ev.req[i], Ev.paths) \in Rng(Cur.bad) THEN "badname"
          ELSE "ok"
NewBlocks == LET f == SelectSeq(Ev.req, LAMBDA p : DiskOf(p) >= 0)
             IN [i \in 1 .. Len(f) |-> St(SName(f[i], Ev.paths), DiskOf(f[i]))]
RenRes == IF Ev.a \notin Names(srr) THEN "missing" ELSE IF Ev.b \in Rng(Cur.bad) THEN "badname" ELSE "ok"

ExpRes == CASE Ev.o = "add" -> AddRes [] Ev.o = "remove" -> "ok" [] Ev.o = "rename" -> RenRes
ExpSrr == IF ExpRes # "ok" THEN srr
          ELSE CASE Ev.o = "add" -> InsertStored(srr, NewBlocks)
                 [] Ev.o = "remove" -> RemoveNames(srr, Rng(Ev.names))
                 [] Ev.o = "rename" -> RenameFirst(srr, Ev.a, Ev.b)

\* the verdict is total: a step the specification does not allow is reported and ends the trace
Step ==
    /\ ~bad /\ l <= Len(Cur.ops)
    /\ IF Ev.res = ExpRes /\ Ev.srr = ExpSrr
       THEN l' = l + 1 /\ srr' = ExpSrr /\ bad' = FALSE
       ELSE /\ PrintT("B|" \o ToJson([trace |-> t, step |-> l, op |-> Ev.o, got |-> Ev.res, want |-> ExpRes,
                                      clause |-> IF Ev.res # ExpRes THEN "result" ELSE "contents"]))
            /\ bad' = TRUE /\ UNCHANGED <<l, srr>>
    /\ UNCHANGED t
Spec == Init /\ [][Step]_vars
=============================================================================
