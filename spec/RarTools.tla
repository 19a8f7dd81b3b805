------------------------------ MODULE RarTools ------------------------------
(***************************************************************************)
(* Rebuilding compressed archives: which RAR executable made it?           *)
(* (RarRepository, RarArguments, CompressedRarFile, CompressedRarFileAll   *)
(* in rescene/main.py)                                                     *)
(*                                                                         *)
(* repo   executables, oldest first: [date, ver, fam, mt, broken]          *)
(*        ver: 250 = 2.50; fam: executables of a family compress alike;    *)
(*        mt: has the switch for the number of threads; dates are even     *)
(* arch   what has to be rebuilt:                                          *)
(*        fam, t: what made it (the family and number of threads)          *)
(*        date: of its newest file                                         *)
(*        solid, many: one solid stream; more than one volume              *)
(*        quirk: what the data of a file depends on besides the file:      *)
(*          none, prev (is there a file before it), next (after it), both, *)
(*          deep (are there two files before it)                           *)
(*        files: [k: "c" compressed, "s" stored, "d" directory; big: the   *)
(*          number of threads makes a difference]                          *)
(* mt     the limits that the user gives: [set, min, max]                  *)
(* tries  every call of the search, in order                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions,        \* version numbers of executables
          MaxTools, MaxFiles,
          Threads,         \* numbers of threads that archives are made with
          Limits,          \* limits given by the user
          Quirks, Solids, Manys, Kinds, Brokens,
          Faulty           \* "none", or a fault that the invariants have to see

VARIABLES repo, arch, limits, pc, k, pass, idx, tpos, withprev, good, tries, outcome

vars == <<repo, arch, limits, pc, k, pass, idx, tpos, withprev, good, tries, outcome>>

Min(a, b) == IF a < b THEN a ELSE b
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Rev(Tail(s)) \o <<Head(s)>>

Init == /\ repo = <<>> /\ arch = [fam |-> 0, t |-> 0, date |-> 0, solid |-> FALSE, many |-> FALSE, quirk |-> "none", md |-> "C", files |-> <<>>]
        /\ limits = [set |-> {}, min |-> 0, max |-> 0]
        /\ pc = "tools" /\ k = 0 /\ pass = 1 /\ idx = 1 /\ tpos = 1 /\ withprev = FALSE /\ good = <<>> /\ tries = <<>> /\ outcome = "-"

\* --------------------------------------------------------------- the world
AddTool == /\ pc = "tools" /\ Len(repo) < MaxTools
           /\ \E v \in Versions, f \in {0, 1}, b \in Brokens, skip \in 0 .. 1 :
                LET n == Len(repo) IN
                /\ n > 0 => v >= repo[n].ver
                /\ repo' = Append(repo, [date |-> (IF n = 0 THEN 2 ELSE repo[n].date + 2) + 2 * skip, ver |-> v,
                                         fam |-> IF n = 0 THEN 0 ELSE repo[n].fam + f, mt |-> v >= 360, broken |-> b])
           /\ UNCHANGED <<arch, limits, pc, k, pass, idx, tpos, withprev, good, tries, outcome>>

TMin(x) == IF x.ver < 420 THEN 0 ELSE 1
TMax(x) == IF x.ver < 420 THEN 16 ELSE 32

\* the archive is made with one of the executables (which may get lost)
MakeArch == /\ pc = "tools" /\ repo # <<>> /\ ~repo[Len(repo)].broken
            /\ \E m \in 1 .. Len(repo), t \in Threads, d \in 1 .. repo[Len(repo)].date + 1, s \in Solids, v \in Manys, q \in Quirks, lost \in BOOLEAN, md \in {"C", "G"} :
                 /\ ~repo[m].broken
                 /\ IF repo[m].mt THEN t \in TMin(repo[m]) .. TMax(repo[m]) ELSE t = 0
                 /\ repo[m].ver < 290 \/ repo[Len(repo)].ver < 290 => md = "C"
                 /\ q = "next" \/ q = "both" => ~v
                 /\ s => q = "none"
                 /\ lost => m < Len(repo)
                 /\ arch' = [fam |-> repo[m].fam, t |-> t, date |-> d, solid |-> s, many |-> v, quirk |-> q, md |-> md, files |-> <<>>,
                             old |-> repo[m].ver < 290, maker |-> m, lost |-> lost, mver |-> repo[m].ver, mdate |-> repo[m].date]
                 /\ pc' = "files"
            /\ UNCHANGED <<repo, limits, k, pass, idx, tpos, withprev, good, tries, outcome>>

AddFile == /\ pc = "files" /\ Len(arch.files) < MaxFiles
           /\ arch.old /\ arch.many => Len(arch.files) < 1
           /\ \E f \in [k : Kinds, big : BOOLEAN] :
                LET n == Len(arch.files) IN
                /\ n > 0 => (arch.files[n].k = "d" => f.k = "d")     \* directories come last
                /\ f.k # "c" => ~f.big
                /\ (arch.solid \/ arch.quirk # "none" \/ arch.many) => f.k = "c"
                /\ arch' = [arch EXCEPT !.files = Append(arch.files, f)]
           /\ UNCHANGED <<repo, limits, pc, k, pass, idx, tpos, withprev, good, tries, outcome>>

\* the executables that are still there when the archive is rebuilt
Go == /\ pc = "files" /\ \E i \in 1 .. Len(arch.files) : arch.files[i].k = "c"
      /\ arch.solid => Len(arch.files) > 1
      /\ \E l \in Limits : limits' = l
      /\ repo' = IF arch.lost THEN [i \in 1 .. Len(repo) - 1 |-> repo[IF i < arch.maker THEN i ELSE i + 1]] ELSE repo
      /\ pc' = "next" /\ UNCHANGED <<arch, k, pass, idx, tpos, withprev, good, tries, outcome>>

\* ------------------------------------------------------------- the search
Files == arch.files
N == Len(Files)
First == IF \E i \in 1 .. N : Files[i].k = "c" THEN CHOOSE i \in 1 .. N : Files[i].k = "c" /\ \A j \in 1 .. i - 1 : Files[j].k # "c" ELSE 0

\* the first one that is not older than the archive (betas), then the older
\* ones from new to old, then the newer ones
Order == LET before == {i \in 1 .. Len(repo) : repo[i].date < arch.date}
             after == {i \in 1 .. Len(repo) : repo[i].date >= arch.date}
             b == Rev(Sorted(before))
             a == Sorted(after) IN
         (IF good = <<>> THEN <<>> ELSE <<good[1].tool>>)
         \o (IF a = <<>> THEN b ELSE <<Head(a)>> \o b \o Tail(a))

Range_(x) == LET lo == IF limits.min > 0 THEN limits.min ELSE TMin(x)
                 hi == Min(IF limits.max > 0 THEN limits.max ELSE TMax(x), TMax(x)) IN
             IF limits.set = {} THEN lo .. hi ELSE limits.set \cap lo .. hi
Counts(x) == IF x.mt THEN Sorted(Range_(x)) ELSE <<-1>>

\* does this try give the data of file f?
Eff(t) == IF t = -1 THEN 0 ELSE t
Works(x) == ~x.broken /\ (x.ver < 290 => arch.md = "C")
\* a file that does not get smaller is stored when there are no volumes: not modelled
Hit(i, x, t, p, n) ==
    /\ Works(x) /\ x.fam = arch.fam
    /\ Files[i].big => Eff(t) = arch.t
    /\ arch.quirk \in {"prev", "both"} => p = (i > 1)
    /\ arch.quirk \in {"next", "both"} => n = (i < N)
    /\ arch.quirk = "deep" => i < 3

\* good: for every file that is done: [file, tool, t]; tool 0: none (not compressed)
Done(i) == \E j \in 1 .. Len(good) : good[j].file = i
HasPrev == k > 1 /\ good # <<>> /\ Done(k - 1)
\* is there a next file to add to the search?  the rest of the file itself
\* is the next one when it continues in another volume
HasNext == ~arch.solid /\ (k < N \/ arch.many)

NextFile == /\ pc = "next"
            /\ IF k = N THEN pc' = "done" /\ outcome' = "exact" /\ UNCHANGED <<k, good>>
               ELSE /\ k' = k + 1
                    /\ IF Files[k + 1].k = "c" THEN
                          IF arch.solid /\ k + 1 > First
                          THEN pc' = "solid" /\ UNCHANGED <<good, outcome>>
                          ELSE pc' = "try" /\ UNCHANGED <<good, outcome>>
                       ELSE /\ pc' = "next" /\ UNCHANGED outcome
                            /\ good' = IF Files[k + 1].k = "s" /\ good # <<>>
                                       THEN Append(good, [file |-> k + 1, tool |-> good[Len(good)].tool, t |-> good[Len(good)].t]) ELSE good
            /\ pass' = 1 /\ idx' = 1 /\ tpos' = 1 /\ withprev' = FALSE
            /\ UNCHANGED <<repo, arch, limits, tries>>

\* one call of an executable
Try == /\ pc = "try" /\ idx <= Len(Order)
       /\ LET i == Order[idx]
              x == repo[i]
              c == Counts(x) IN
          IF tpos <= Len(c) THEN
             LET t == c[tpos] IN
             /\ tries' = Append(tries, [file |-> k, tool |-> i, t |-> t, prev |-> withprev, next |-> pass = 2])
             /\ IF Hit(k, x, t, withprev, pass = 2)
                THEN /\ good' = Append(good, [file |-> k, tool |-> i, t |-> t])
                     /\ pc' = "next" /\ UNCHANGED tpos
                ELSE tpos' = tpos + 1 /\ UNCHANGED <<good, pc>>
             /\ UNCHANGED <<withprev, idx>>
          ELSE \* the next one, or this one with the previous file
             /\ tpos' = 1 /\ UNCHANGED <<tries, good, pc>>
             /\ IF ~withprev /\ HasPrev /\ Faulty # "noprev" THEN withprev' = TRUE /\ UNCHANGED idx
                ELSE withprev' = FALSE /\ idx' = idx + 1
       /\ UNCHANGED <<repo, arch, limits, k, pass, outcome>>

\* none of them: once more with the next file
Again == /\ pc = "try" /\ idx > Len(Order) /\ pass = 1 /\ HasNext
         /\ pass' = 2 /\ idx' = 1 /\ tpos' = 1 /\ withprev' = FALSE
         /\ UNCHANGED <<repo, arch, limits, pc, k, good, tries, outcome>>

Failed == pc = "try" /\ idx > Len(Order) /\ ~(pass = 1 /\ HasNext)

\* nothing found before: refused
Refuse == /\ Failed /\ good = <<>>
          /\ pc' = "done" /\ outcome' = "refused"
          /\ UNCHANGED <<repo, arch, limits, k, pass, idx, tpos, withprev, good, tries>>

\* the files from i on come out right with executable x and t threads
FromOn(i, x, t) == Works(x) /\ x.fam = arch.fam /\ \A j \in i .. N : Files[j].k = "c" /\ Files[j].big => Eff(t) = arch.t
Later(x, t) == IF x.mt THEN {c \in Range_(x) : c >= t} ELSE {t}

\* all the files at once with the settings of the file before it, or those of
\* the one with the most threads, and more threads until it fits
TC(t) == IF t = -1 THEN 1 ELSE t
LastT(tool) == good[Max({j \in 1 .. Len(good) : good[j].tool = tool})].t
RECURSIVE Most(_, _)
Most(j, tool) == IF j > Len(good) THEN tool
                 ELSE Most(j + 1, IF TC(LastT(good[j].tool)) > TC(LastT(tool)) THEN good[j].tool ELSE tool)
All_ == /\ Failed /\ good # <<>>
        /\ LET first == IF Done(k - 1) THEN (CHOOSE g \in {good[j] : j \in 1 .. Len(good)} : g.file = k - 1).tool ELSE good[1].tool
               x == Most(1, first) IN
           outcome' = IF \E t \in Later(repo[x], LastT(x)) : FromOn(k, repo[x], t) THEN "exact" ELSE "refused"
        /\ pc' = "done" /\ UNCHANGED <<repo, arch, limits, k, pass, idx, tpos, withprev, good, tries>>

\* a solid archive: the executable of the first file, more threads when needed
Solid == /\ pc = "solid"
         /\ LET g == good[Len(good)]
                x == repo[g.tool]
                ts == {t \in Later(x, g.t) : Files[k].big => Eff(t) = arch.t} IN
            IF ts # {} THEN /\ good' = Append(good, [file |-> k, tool |-> g.tool, t |-> Sorted(ts)[1]])
                            /\ pc' = "next" /\ UNCHANGED outcome
            ELSE pc' = "done" /\ outcome' = "refused" /\ UNCHANGED good
         /\ UNCHANGED <<repo, arch, limits, k, pass, idx, tpos, withprev, tries>>

Next == AddTool \/ MakeArch \/ AddFile \/ Go \/ NextFile \/ Try \/ Again \/ Refuse \/ All_ \/ Solid
Spec == Init /\ [][Next]_vars /\ WF_vars(NextFile \/ Try \/ Again \/ Refuse \/ All_ \/ Solid)

\* ------------------------------------------------------------- properties
\* no call is made twice for a file, but for the executable that was good before
OnceEach == \A a, b \in 1 .. Len(tries) : a < b /\ tries[a] = tries[b] => good # <<>> /\ tries[a].tool = good[1].tool
\* the number of threads stays between the limits
Allowed == \A a \in 1 .. Len(tries) : LET x == repo[tries[a].tool] IN IF x.mt THEN tries[a].t \in Range_(x) ELSE tries[a].t = -1
\* when the search fails, everything that is there has been tried
AllTried == Failed => \A i \in 1 .. Len(repo) : \A t \in {Counts(repo[i])[j] : j \in 1 .. Len(Counts(repo[i]))} :
               \A p \in (IF HasPrev THEN BOOLEAN ELSE {FALSE}), n \in (IF HasNext THEN BOOLEAN ELSE {FALSE}) :
                  \E a \in 1 .. Len(tries) : tries[a] = [file |-> k, tool |-> i, t |-> t, prev |-> p, next |-> n]
\* what made the archive is there and may be used
Can == \E i \in 1 .. Len(repo) : Works(repo[i]) /\ repo[i].fam = arch.fam /\ \E j \in 1 .. Len(Counts(repo[i])) : Eff(Counts(repo[i])[j]) = arch.t
\* then the archive is rebuilt; the first file of a solid archive must tell enough
Rebuilt == pc = "done" /\ Can /\ ~(arch.solid /\ ~Files[1].big) /\ arch.quirk # "deep" => outcome = "exact"
\* found the first one in the order that gives the right data
FirstHit == \A j \in 1 .. Len(tries) : LET r == tries[j] IN
               Hit(r.file, repo[r.tool], r.t, r.prev, r.next) => j = Len(tries) \/ tries[j + 1].file # r.file
Ends == <>(pc \in {"tools", "files"} \/ pc = "done")
Termination == pc = "next" ~> pc = "done"

Emit == pc = "done" => PrintT("B|" \o ToJson([repo |-> repo, arch |-> arch, limits |-> limits, tries |-> tries, good |-> good, outcome |-> outcome]))
=============================================================================
