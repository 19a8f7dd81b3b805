------------------------------ MODULE Damage -------------------------------
(* Reading RAR and SRR files block by block.  A file is a sequence of blocks; *)
(* a block takes up to three cells in the file: the 7 byte basic header, the  *)
(* rest of its header and its data.  The reader is a state machine over the   *)
(* position in the file.  The file is cut anywhere, or one field of one block *)
(* is damaged, and the specification says what is reported before the reading *)
(* ends and how it ends.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,        \* "rar" or "srr"
          Kinds,       \* kinds of the blocks between the first ones and the end
          MaxBlocks,
          Tails        \* ways the file ends

(* Cells of a block: basic header, rest of the header, data that belongs to the block as it is read (incl) or     *)
(* is passed over (skip).  Inside of an SRR the data of the RAR blocks that are kept is left out, except for the  *)
(* recovery records of volumes that say they are kept.                                                            *)
Cells(k, kept) ==
   CASE k \in {"marker", "end"} -> << "basic" >>
     [] k \in {"main", "head", "rarfile", "rarkeep", "oso", "endfull", "dir"} -> << "basic", "rest" >>
     [] k \in {"cmt", "padding", "unknown"} -> << "basic", "rest", "incl" >>
     [] k = "file" -> IF Mode = "rar" THEN << "basic", "rest", "skip" >> ELSE << "basic", "rest" >>
     [] k = "rr" -> IF Mode = "rar" THEN << "basic", "rest", "skip" >> ELSE IF kept THEN << "basic", "rest", "incl" >> ELSE << "basic", "rest" >>
     [] k = "stored" -> << "basic", "rest", "skip" >>
     [] k = "pad" -> << "raw" >>               \* bytes after the end of a RAR file

VARIABLES blocks, damage, pc, at, kept, reported, outcome
vars == << blocks, damage, pc, at, kept, reported, outcome >>

First == IF Mode = "rar" THEN << "marker", "main" >> ELSE << "head" >>
TailOf(e) == CASE e = "none" -> << >>
               [] e = "end" -> << "end" >>
               [] e = "endfull" -> << "endfull" >>
               [] e = "endpad" -> << "end", "pad" >>
               [] e = "endfullpad" -> << "endfull", "pad" >>
NoDamage == [k |-> "none", b |-> 0, c |-> 0, inside |-> FALSE]

(* is the recovery record of block b of the sequence kept *)
LastOf(bs, b) == { i \in 1..(b - 1) : bs[i] \in {"rarfile", "rarkeep"} }
Kept(bs, b) == \E i \in LastOf(bs, b) : bs[i] = "rarkeep" /\ \A j \in LastOf(bs, b) : j <= i
CellsOf(bs, b) == Cells(bs[b], Kept(bs, b))

(* damage to a field of a block:                                                        *)
(*   size0   header size below 7            sizebig  header size beyond the end          *)
(*   add     size of the data beyond the end of the file                                *)
(*   any     anything else in the header of the block                                   *)
(* cut: the file ends at the start of cell c of block b, or inside of it                 *)
Damages(bs) ==
   { NoDamage }
   \cup { [k |-> "cut", b |-> b, c |-> c, inside |-> i] : b \in 1..Len(bs), c \in 1..3, i \in BOOLEAN }
   \cup { [k |-> k, b |-> b, c |-> 1, inside |-> FALSE] : k \in {"size0", "sizebig", "any", "add"}, b \in 1..Len(bs) }
Fits(d, bs) ==
   CASE d.k = "none" -> TRUE
     [] d.k = "cut" -> d.c <= Len(CellsOf(bs, d.b)) /\ ~(d.b = 1 /\ d.c = 1 /\ ~d.inside)
     [] d.k = "add" -> \E i \in 1..Len(CellsOf(bs, d.b)) : CellsOf(bs, d.b)[i] \in {"incl", "skip"}
     [] OTHER -> bs[d.b] # "pad"

Init == /\ blocks = First /\ damage = NoDamage /\ pc = "build" /\ at = 1 /\ kept = FALSE /\ reported = << >> /\ outcome = "none"
Build == /\ pc = "build" /\ Len(blocks) < MaxBlocks + Len(First)
         /\ \E k \in Kinds : blocks' = Append(blocks, k)
         /\ UNCHANGED << damage, pc, at, kept, reported, outcome >>
Harm == /\ pc = "build"
        /\ \E e \in Tails : /\ blocks' = blocks \o TailOf(e)
                            /\ \E d \in Damages(blocks \o TailOf(e)) : Fits(d, blocks \o TailOf(e)) /\ damage' = d
        /\ pc' = "read" /\ UNCHANGED << at, kept, reported, outcome >>

(* is the cell not there as a whole / does the file end in front of the block *)
Gone(b, c) == damage.k = "cut" /\ (b > damage.b \/ (b = damage.b /\ c >= damage.c))
EndsAt(b) == b > Len(blocks) \/ (damage.k = "cut" /\ b = damage.b /\ damage.c = 1 /\ ~damage.inside)
(* the smallest file: too short to hold the first block and a main header *)
TooSmall == damage.k = "cut" /\ damage.b <= Len(First)

Stop(o) == pc' = "done" /\ outcome' = o /\ UNCHANGED << blocks, damage, at, kept >>
Report(ok) == reported' = Append(reported, [b |-> at, whole |-> ok])
GoOn == /\ pc' = "read" /\ at' = at + 1 /\ UNCHANGED << blocks, damage, outcome >>
        /\ kept' = (IF blocks[at] = "rarkeep" THEN TRUE ELSE IF blocks[at] = "rarfile" THEN FALSE ELSE kept)
Same == UNCHANGED reported

(* one block is read; k: its kind, cs: its cells *)
Block(k, cs) ==
   LET Hdr == { c \in 1..Len(cs) : cs[c] \in {"basic", "rest"} }
       Incl == { c \in 1..Len(cs) : cs[c] = "incl" }
       Skip == { c \in 1..Len(cs) : cs[c] = "skip" }
   IN IF k = "pad" THEN Report(~Gone(at, 1)) /\ GoOn
      ELSE IF \E c \in Hdr : Gone(at, c) THEN Stop("error") /\ Same
      ELSE IF damage.b = at /\ damage.k \in {"size0", "sizebig"} THEN Stop("error") /\ Same
      ELSE IF damage.b = at /\ damage.k = "any" THEN Stop("any") /\ Same
      ELSE IF damage.b = at /\ damage.k = "add"
           THEN IF Incl # {} THEN Stop("error") /\ Same ELSE Stop("error") /\ Report(FALSE)
      ELSE IF \E c \in Incl : Gone(at, c) THEN Stop("error") /\ Same
      ELSE IF \E c \in Skip : Gone(at, c) THEN Stop("error") /\ Report(TRUE)
      ELSE Report(TRUE) /\ GoOn

Read == /\ pc = "read"
        /\ IF TooSmall THEN Stop("error") /\ Same
           ELSE IF EndsAt(at) THEN Stop("ok") /\ Same
           ELSE Block(blocks[at], Cells(blocks[at], kept))
Step == Build \/ Harm \/ Read
Spec == Init /\ [][Step]_vars /\ WF_vars(Read)

(* the reading goes forward and ends; what is reported is a beginning of the file *)
Forward == [][(pc = "read" /\ pc' = "read") => at' = at + 1]_vars
Comes == (pc = "read") ~> (pc = "done")
Beginning == \A i \in 1..Len(reported) : reported[i].b = i
UpToDamage == pc = "done" => /\ (damage.k = "none" => Len(reported) = Len(blocks) /\ outcome = "ok")
                             /\ (damage.k # "none" /\ ~TooSmall => Len(reported) >= damage.b - 1)
                             /\ \A i \in 1..Len(reported) : damage.k # "none" => reported[i].b <= damage.b
(* a cut is only not noticed between two blocks *)
Noticed == (pc = "done" /\ damage.k = "cut" /\ outcome = "ok") =>
              \/ (~damage.inside /\ damage.c = 1)
              \/ blocks[damage.b] = "pad"
KeptRight == pc = "read" /\ at <= Len(blocks) => kept = Kept(blocks, at)

Emit == IF pc = "done"
        THEN PrintT("B|" \o ToJson([mode |-> Mode, blocks |-> blocks, damage |-> damage, n |-> Len(reported), outcome |-> outcome,
                                    cells |-> [i \in 1..Len(blocks) |-> CellsOf(blocks, i)],
                                    last |-> IF reported = << >> THEN FALSE ELSE reported[Len(reported)].whole]))
        ELSE TRUE
=============================================================================
