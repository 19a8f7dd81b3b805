------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Merging a list of SRRs, one after the other and all at once.  The       *)
(* result is one header, then every stored file, then everything else,     *)
(* each in the order of the inputs, and it does not matter whether parts   *)
(* of the list were merged before.                                         *)
(***************************************************************************)
EXTENDS SrrFile, TLC, Json

CONSTANTS Pool,        \* sequence of SRRs (sequences of parts)
          Apps,        \* application names asked for ("" = none)
          MaxLen

VARIABLES list, app, k, acc

Ins == [i \in 1 .. Len(list) |-> Pool[list[i]]]
First(n) == SubSeq(Ins, 1, n)

Init == /\ list \in UNION {[1 .. n -> 1 .. Len(Pool)] : n \in 1 .. MaxLen}
        /\ app \in Apps /\ k = 0 /\ acc = <<>>
Take == /\ k < Len(list) /\ k' = k + 1
        /\ acc' = MergeSrr(IF k = 0 THEN <<Ins[1]>> ELSE <<acc, Ins[k + 1]>>, app)
        /\ UNCHANGED <<list, app>>
Spec == Init /\ [][Take]_<<list, app, k, acc>>

(*-- properties --*)
SameInSteps == k > 0 => acc = MergeSrr(First(k), app)
\* merging the second part on its own first gives the same, too
Grouped == k = Len(list) => \A c \in 1 .. Len(list) - 1 :
    acc = MergeSrr(<<MergeSrr(SubSeq(Ins, 1, c), app), MergeSrr(SubSeq(Ins, c + 1, Len(list)), app)>>, app)
RECURSIVE Cat(_, _)
Cat(ss, kk) == IF ss = <<>> THEN <<>> ELSE Only(Head(ss), kk) \o Cat(Tail(ss), kk)
NothingLost == k > 0 => \A kk \in {"st", "vol", "oso"} : Only(acc, kk) = Cat(First(k), kk)
OneHeader == k > 0 => acc[1].k = "app" /\ Len(Only(acc, "app")) = 1
StoredFirst == \A i, j \in 1 .. Len(acc) : acc[i].k = "st" /\ acc[j].k \in {"vol", "oso"} => i < j
\* the RAR metadata of one input stays in one piece
RestOfInput(s) == SelectSeq(s, LAMBDA b : b.k \notin {"st", "app"})
Whole == \A i \in 1 .. k : LET r == RestOfInput(Ins[i]) IN
    \E p \in 0 .. Len(acc) - Len(r) : SubSeq(acc, p + 1, p + Len(r)) = r
Keeps == k > 0 => Len(acc) = 1 + Len(Flat(First(k))) - Len(Only(Flat(First(k)), "app"))

Emit == IF k = Len(list)
        THEN PrintT("B|" \o ToJson([list |-> list, app |-> app, want |-> acc]))
        ELSE TRUE
=============================================================================
