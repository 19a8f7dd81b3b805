------------------------------- MODULE Listed -------------------------------
(***************************************************************************)
(* The archived files an SRR lists.  Packers write the size of a file in   *)
(* each of its block headers, one per volume:                              *)
(*   "real"  the true size everywhere                                      *)
(*   "u64"   all ones (64 bits) until the last block, which has the size   *)
(*   "u32"   all ones (32 bits) in every block: the size is only known by  *)
(*           adding up the stored pieces                                   *)
(* A reader walks over the block headers once and must end up with the     *)
(* true size and the checksum of the last block for every file.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFiles, MaxPieces, Pieces, Marks

VARIABLES files, phase, pos, L
vars == <<files, phase, pos, L>>

\* a file: its mark, whether it is compressed, the pieces (one per volume), whether it starts in the
\* volume in which the file before it ended
File(m, z, p, s) == [mark |-> m, z |-> z, pieces |-> p, same |-> s]

Init == files = <<>> /\ phase = "write" /\ pos = 1 /\ L = <<>>

AddFile ==
    /\ phase = "write" /\ Len(files) < MaxFiles
    /\ \E m \in Marks, z \in BOOLEAN, s \in BOOLEAN, n \in 1 .. MaxPieces : \E p \in [1 .. n -> Pieces] :
        /\ z => m = "real"
        /\ files = <<>> => ~s
        /\ files' = Append(files, File(m, z, p, s))
    /\ UNCHANGED <<phase, pos, L>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
True_(f) == IF f.z THEN Sum(f.pieces) + 1 ELSE Sum(f.pieces)

Ones32 == -1
Ones64 == -2
Blocks_(i) ==
    LET f == files[i] IN
    [k \in 1 .. Len(f.pieces) |->
        [f |-> i, z |-> f.z, n |-> f.pieces[k], crc |-> k,
         size |-> CASE f.mark = "u32" -> Ones32
                    [] f.mark = "u64" /\ k < Len(f.pieces) -> Ones64
                    [] OTHER -> True_(f)]]
RECURSIVE Flat(_)
Flat(i) == IF i > Len(files) THEN <<>> ELSE Blocks_(i) \o Flat(i + 1)

Close == phase = "write" /\ files # <<>> /\ phase' = "read" /\ UNCHANGED <<files, pos>>
         /\ L' = [i \in 1 .. Len(files) |-> [size |-> 0, known |-> FALSE, crc |-> 0]]

Read ==
    /\ phase = "read" /\ pos <= Len(Flat(1))
    /\ LET b == Flat(1)[pos]
           e == L[b.f]
           e2 == IF b.size = Ones64 THEN e
                 ELSE IF b.size = Ones32 THEN [e EXCEPT !.size = @ + b.n]
                 ELSE [e EXCEPT !.size = b.size, !.known = TRUE]
       IN L' = [L EXCEPT ![b.f] = [e2 EXCEPT !.crc = b.crc]]
    /\ pos' = pos + 1 /\ UNCHANGED <<files, phase>>

Finish == phase = "read" /\ pos = Len(Flat(1)) + 1 /\ phase' = "done" /\ UNCHANGED <<files, pos, L>>
Next == AddFile \/ Close \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

SizeRight == phase = "done" => \A i \in 1 .. Len(files) : L[i].size = True_(files[i])
CrcRight == phase = "done" => \A i \in 1 .. Len(files) : L[i].crc = Len(files[i].pieces)

Emit == phase = "done" => PrintT("B|" \o ToJson([files |-> files, out |-> L]))
=============================================================================
