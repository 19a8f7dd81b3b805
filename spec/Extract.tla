------------------------------ MODULE Extract ------------------------------
(***************************************************************************)
(* Getting files out of an SRR into an output folder: stored files         *)
(* (all, by regular expression, by name) and rebuilt volumes.  Names are   *)
(* sequences of path elements, Bad elements are the ones that do not name  *)
(* something below the folder they are in ("..", ".", "").  The disk maps  *)
(* paths below the output folder to what is there; nothing outside of the  *)
(* folder is part of the state because no action may touch it.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,      \* names of the entries of an SRR
          Bad,        \* elements that are refused
          Pres,       \* what is in the output folder before: sets of [p, v]
          Cfgs,       \* [mode, paths, pol, sel]
          MaxLen      \* entries in one SRR

Old == 0 - 1
Dir == 0 - 2

VARIABLES cfg, es, pre, i, disk, hist, rep, st

vars == <<cfg, es, pre, i, disk, hist, rep, st>>

Safe(n) == \A k \in 1 .. Len(n) : n[k] \notin Bad
Last(n) == n[Len(n)]
Target(n) == IF cfg.paths THEN n ELSE <<Last(n)>>
Above(p) == {SubSeq(p, 1, k) : k \in 1 .. Len(p) - 1}
Val(p) == IF p \in DOMAIN disk THEN disk[p] ELSE 0
IsFile(p) == Val(p) # 0 /\ Val(p) # Dir

Selected(n) == CASE cfg.sel.k = "all" -> TRUE
                 [] cfg.sel.k = "first" -> n[1] = cfg.sel.v[1]        \* a regular expression for the first element
                 [] cfg.sel.k = "base" -> Last(n) = cfg.sel.v[1]      \* a name without path: every entry with it
                 [] cfg.sel.k = "path" -> n = cfg.sel.v            \* exactly this entry

Writable(p) == Val(p) # Dir /\ \A q \in Above(p) : ~IsFile(q)

Store(p, v) == [q \in DOMAIN disk \cup Above(p) \cup {p} |->
                    IF q = p THEN v ELSE IF q \in Above(p) THEN Dir ELSE disk[q]]

Keep == disk' = disk /\ hist' = Append(hist, disk)

E == es[i]
Step == st = "run" /\ i <= Len(es)

\* an entry that was not asked for
Skip == /\ Step /\ ~Selected(E.n)
        /\ i' = i + 1 /\ Keep /\ UNCHANGED <<rep, st>>
\* a name that leads elsewhere, or a place that cannot be written: the run ends with an error
Abort == /\ Step /\ Selected(E.n) /\ (Safe(E.n) => ~Writable(Target(E.n)))
         /\ st' = "abort" /\ i' = i + 1 /\ Keep /\ UNCHANGED rep
Yes == CASE cfg.pol = "always" -> {TRUE} [] cfg.pol = "never" -> {FALSE} [] cfg.pol = "ask" -> BOOLEAN
Put(yes) ==
    LET t == Target(E.n) IN
    /\ disk' = Store(t, i) /\ hist' = Append(hist, disk')
    /\ rep' = Append(rep, [i |-> i, t |-> t, ok |-> TRUE, asked |-> yes])
    /\ i' = i + 1 /\ UNCHANGED st
Fresh == Step /\ Selected(E.n) /\ Safe(E.n) /\ Writable(Target(E.n)) /\ ~IsFile(Target(E.n)) /\ Put(FALSE)
Overwrite == Step /\ Selected(E.n) /\ Safe(E.n) /\ Writable(Target(E.n)) /\ IsFile(Target(E.n)) /\ TRUE \in Yes /\ Put(TRUE)
Refuse == /\ Step /\ Selected(E.n) /\ Safe(E.n) /\ Writable(Target(E.n)) /\ IsFile(Target(E.n)) /\ FALSE \in Yes
          /\ Keep /\ rep' = Append(rep, [i |-> i, t |-> Target(E.n), ok |-> FALSE, asked |-> TRUE])
          /\ i' = i + 1 /\ st' = IF E.k = "vol" THEN "refused" ELSE st
Done == st = "run" /\ i > Len(es) /\ st' = "done" /\ UNCHANGED <<i, disk, hist, rep>>

Entries(n, mode) == LET S == UNION {[1 .. k -> Names] : k \in 1 .. n} IN
    IF mode = "r"
    THEN \* stored files come first; volumes have names of their own
         {[k \in 1 .. Len(s) |-> [k |-> IF k > v THEN "vol" ELSE "st", n |-> s[k]]] :
             <<s, v>> \in {<<s, v>> \in S \X (0 .. 2) : v < Len(s) /\ \A a, b \in v + 1 .. Len(s) : a # b => s[a] # s[b]}}
    ELSE {[k \in 1 .. Len(s) |-> [k |-> "st", n |-> s[k]]] : s \in S}

Init == /\ cfg \in Cfgs /\ es \in Entries(MaxLen, cfg.mode)
        /\ pre \in Pres /\ disk = [p \in {x.p : x \in pre} |-> (CHOOSE x \in pre : x.p = p).v]
        /\ i = 1 /\ hist = <<disk>> /\ rep = <<>> /\ st = "run"
Next == (Skip \/ Abort \/ Fresh \/ Overwrite \/ Refuse \/ Done) /\ UNCHANGED <<cfg, es, pre>>
Spec == Init /\ [][Next]_vars

(*-- properties --*)
Contained == \A p \in DOMAIN disk : Safe(p)
ConsentNeeded == \A x \in pre : x.v = Old =>
    (disk[x.p] = Old \/ \E k \in 1 .. Len(rep) : rep[k].ok /\ rep[k].asked /\ rep[k].t = x.p)
NeverMeansNever == cfg.pol = "never" => \A x \in pre : x.v = Old => disk[x.p] = Old
ReportTrue == \A k \in 1 .. Len(rep) : rep[k].ok =>
    (disk[rep[k].t] = rep[k].i \/ \E m \in k + 1 .. Len(rep) : rep[m].t = rep[k].t /\ rep[m].ok /\ rep[m].asked)
OnlySelected == \A k \in 1 .. Len(rep) : Selected(es[rep[k].i].n)
Complete == st = "done" => \A k \in 1 .. Len(es) : Selected(es[k].n) => \E m \in 1 .. Len(rep) : rep[m].i = k
NothingStray == \A p \in DOMAIN disk : disk[p] > 0 => \E k \in 1 .. Len(rep) : rep[k].ok /\ rep[k].i = disk[p] /\ rep[k].t = p
DirsStay == \A x \in pre : x.v = Dir => disk[x.p] = Dir

Out(f) == {[p |-> p, v |-> f[p]] : p \in DOMAIN f}
Emit == IF st # "run"
        THEN PrintT("B|" \o ToJson([cfg |-> cfg, es |-> es, pre |-> pre, st |-> st, rep |-> rep,
                                    hist |-> [k \in 1 .. Len(hist) |-> Out(hist[k])]]))
        ELSE TRUE
=============================================================================
