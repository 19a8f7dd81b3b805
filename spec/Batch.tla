-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* The tools that go over a whole folder.  Each handles the entries one    *)
(* after another; what happens to an entry depends on that entry, the      *)
(* options and (for name clashes) on what was handled before - never on an *)
(* entry that fails.                                                       *)
(*   "batch"    an SRS, or a text file with the error, for every video     *)
(*   "extract"  the SRS files of an SRR                                    *)
(*   "bad"      SRRs with samples that were not checked, or error texts    *)
(*   "size"     SRS files of samples larger than a given size              *)
(*   "sort"     lists and moves SRRs that match one of the options         *)
(*   "rarbin"   RAR executables by date and version out of installers      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Tool, Entries, Options, MaxEntries

VARIABLES es, opt, i, phase, res
vars == <<es, opt, i, phase, res>>

Init == es = <<>> /\ opt \in Options /\ i = 1 /\ phase = "build" /\ res = <<>>
Add == /\ phase = "build" /\ Len(es) < MaxEntries
       /\ \E e \in Entries : es' = Append(es, e)
       /\ UNCHANGED <<opt, i, phase, res>>
Start == phase = "build" /\ es # <<>> /\ phase' = "run" /\ UNCHANGED <<es, opt, i, res>>

Batch_(e) == CASE e.k = "other" -> "nothing"
               [] e.old /\ opt.no -> "kept"
               [] e.k = "video" -> "srs"
               [] OTHER -> "error"
Extract_(e) == IF e.k = "srs" THEN "written" ELSE "nothing"
Size_(e) == IF e.k = "srs" /\ e.size > opt.size THEN "listed" ELSE "nothing"
Bad_(e) == IF (e.k = "unchecked" /\ opt.s) \/ (e.k = "errortext" /\ opt.t) THEN "listed" ELSE "nothing"
\* the options of "sort"
Feature(f, e) ==
    CASE f = "-c" -> e.rar = "comp"
      [] f = "-e" -> e.rar = "none"
      [] f = "-i" -> e.img # "none"
      [] f = "-p" -> e.img = "other"
      [] f = "-t" -> e.nfos >= 2
      [] f = "-n" -> e.nfos = 0
      [] f = "-u" -> e.dup = "same"            \* twice the same name, "near": the same name in two folders
      [] f = "-s" -> ~e.sfv
      [] f = "--txt" -> e.txt
      [] f = "-r" -> e.rar # "none" /\ e.vol = "repack"
      [] f = "-2" -> e.rar # "none" /\ e.vol = "upper"
      [] f = "-m" -> e.files > e.sets          \* archived files, RAR sets
      [] f = "-l" -> e.grp # "Upper"           \* a group in lower case, or none
      [] f = "-d" -> FALSE                     \* only prints the name: see Fixes
      [] f = "-f" -> e.img = "none" /\ e.nfos = 0 /\ e.dup = "no" /\ ~e.sfv /\ ~e.txt
Fixes(e) == "-d" \in opt.flags /\ e.fix
Matches(e) == \E f \in opt.flags : Feature(f, e)
SameName(a, b) == a.name = b.name /\ a.grp = b.grp /\ a.fix = b.fix
Clash(e, done) == \E j \in 1 .. Len(done) : done[j] = "moved" /\ SameName(es[j], e)
Sort_(e, done) == IF ~Matches(e) THEN "nothing"
                  ELSE IF opt.move /\ ~Clash(e, done) THEN "moved" ELSE "listed"
RarBin_(e) == IF e.k = "other" \/ e.major < 2 \/ (e.beta /\ ~opt.beta) THEN "nothing" ELSE "made"

Outcome(e, done) ==
    CASE Tool = "batch" -> Batch_(e)
      [] Tool = "extract" -> Extract_(e)
      [] Tool = "size" -> Size_(e)
      [] Tool = "bad" -> Bad_(e)
      [] Tool = "sort" -> Sort_(e, done)
      [] Tool = "rarbin" -> RarBin_(e)

Handle == /\ phase = "run" /\ i <= Len(es)
          /\ res' = Append(res, Outcome(es[i], res))
          /\ i' = i + 1 /\ UNCHANGED <<es, opt, phase>>
Finish == phase = "run" /\ i > Len(es) /\ phase' = "done" /\ UNCHANGED <<es, opt, i, res>>
Next == Add \/ Start \/ Handle \/ Finish
Spec == Init /\ [][Next]_vars

Done == phase = "done"
EveryEntry == Done => Len(res) = Len(es)
\* an entry on its own has the same outcome, except for a move that would replace another file
OnItsOwn == Done => \A j \in 1 .. Len(es) : res[j] = Outcome(es[j], <<>>) \/ (res[j] = "listed" /\ Outcome(es[j], <<>>) = "moved")
NothingLost == Done => \A j, k \in 1 .. Len(es) : (j # k /\ res[j] = "moved" /\ res[k] = "moved") => ~SameName(es[j], es[k])

Emit == Done => PrintT("B|" \o ToJson([tool |-> Tool, es |-> es, opt |-> opt, res |-> res,
                                       fix |-> IF Tool = "sort" THEN [j \in 1 .. Len(es) |-> Fixes(es[j])] ELSE <<>>]))
=============================================================================
