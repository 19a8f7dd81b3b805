-------------------------------- MODULE Sfv --------------------------------
(* SFV documents.  A document is a sequence of lines; what a parser has to   *)
(* give back, how entries are ordered and when two documents are the same    *)
(* are defined on it.  The second document of a behaviour comes from the     *)
(* first one by edits, so that equal and nearly equal documents occur.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,      \* file names as records [set |-> , sc |-> , i |-> , cs |-> ]: cs is the letter case variant
          Crcs,       \* checksums [v |-> value, cs |-> ...]
          MaxLines, MaxEdits,
          Others      \* other lines: "comment", "blank", "nospace", "badcrc", "longcrc"

VARIABLES one, two, edits, phase
vars == << one, two, edits, phase >>

Range(s) == { s[i] : i \in 1..Len(s) }
Entry(n, c) == [k |-> "entry", n |-> n, c |-> c]
Other(k) == [k |-> k, n |-> [set |-> "", sc |-> "", i |-> 0, cs |-> 0], c |-> [v |-> 0, cs |-> 0]]
Entries(d) == SelectSeq(d, LAMBDA l : l.k = "entry")
Comments(d) == SelectSeq(d, LAMBDA l : l.k = "comment")
Errors(d) == SelectSeq(d, LAMBDA l : l.k \in {"nospace", "badcrc", "longcrc"})

(* letter case means nothing *)
Plain(e) == << e.n.set, e.n.sc, e.n.i, e.c.v >>
Pairs(d) == { Plain(e) : e \in Range(Entries(d)) }
Same(a, b) == Pairs(a) = Pairs(b)

(* within a volume set the archive order is the order of the volume numbers; how sets follow each other is *)
(* not prescribed, only that it is the same for any order of the lines                                      *)
InOrder(es) == \A i, j \in 1..Len(es) : (i < j /\ es[i].n.set = es[j].n.set /\ es[i].n.sc = es[j].n.sc) => es[i].n.i <= es[j].n.i
RECURSIVE Ins(_, _)
Less(a, b) == LET x == Plain(a)
                  y == Plain(b)
              IN IF x[1] # y[1] THEN x[1] \in {"A"} \/ (x[1] = "B" /\ y[1] # "A")
                 ELSE IF x[3] # y[3] THEN x[3] < y[3] ELSE x[4] < y[4]
Ins(es, e) == IF es = << >> THEN << e >>
              ELSE IF Less(e, Head(es)) THEN << e >> \o es ELSE << Head(es) >> \o Ins(Tail(es), e)
RECURSIVE Sort(_)
Sort(es) == IF es = << >> THEN << >> ELSE Ins(Sort(SubSeq(es, 1, Len(es) - 1)), es[Len(es)])
RECURSIVE Dedup(_)
Dedup(es) == IF Len(es) < 2 THEN es
             ELSE IF Plain(es[1]) = Plain(es[2]) THEN Dedup(<< es[1] >> \o SubSeq(es, 3, Len(es)))
             ELSE << es[1] >> \o Dedup(Tail(es))

-----------------------------------------------------------------------------
Lines == { Entry(n, c) : n \in Names, c \in Crcs } \cup { Other(k) : k \in Others }

Init == one = << >> /\ two = << >> /\ edits = 0 /\ phase = "write"
Write == /\ phase = "write" /\ Len(one) < MaxLines
         /\ \E l \in Lines : one' = Append(one, l)
         /\ UNCHANGED << two, edits, phase >>
Copy == /\ phase = "write" /\ one # << >> /\ phase' = "edit" /\ two' = one /\ UNCHANGED << one, edits >>
Put(i, l) == [two EXCEPT ![i] = l]
Edit == /\ phase = "edit" /\ edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED << one, phase >>
        /\ \/ \E i, j \in 1..Len(two) : i < j /\ two' = [two EXCEPT ![i] = two[j], ![j] = two[i]]
           \/ \E i \in 1..Len(two) : \E j \in 0..Len(two) : two' = SubSeq(two, 1, j) \o << two[i] >> \o SubSeq(two, j + 1, Len(two))
           \/ \E i \in 1..Len(two) : two' = SubSeq(two, 1, i - 1) \o SubSeq(two, i + 1, Len(two))
           \/ \E i \in 1..Len(two) : two[i].k = "entry" /\ two' = Put(i, [two[i] EXCEPT !.n.cs = 1 - @])
           \/ \E i \in 1..Len(two) : two[i].k = "entry" /\ two' = Put(i, [two[i] EXCEPT !.c.cs = 1 - @])
           \/ \E i \in 1..Len(two) : \E c \in Crcs : two[i].k = "entry" /\ two[i].c.v # c.v /\ two' = Put(i, [two[i] EXCEPT !.c = c])
           \/ \E i \in 1..Len(two) : \E n \in Names : two[i].k = "entry" /\ n.set = two[i].n.set /\ n.i # two[i].n.i /\ two' = Put(i, [two[i] EXCEPT !.n = n])
           \/ \E j \in 0..Len(two) : two' = SubSeq(two, 1, j) \o << Other("comment") >> \o SubSeq(two, j + 1, Len(two))
Finish == phase = "edit" /\ phase' = "done" /\ UNCHANGED << one, two, edits >>
Step == Write \/ Copy \/ Edit \/ Finish
Spec == Init /\ [][Step]_vars

(* sorting and removing doubles keep the pairs, give the archive order, and are the same for documents with the same pairs *)
Lossless == LET s == Dedup(Sort(Entries(one)))
            IN /\ InOrder(s) /\ Pairs(s) = Pairs(one) /\ Len(s) = Cardinality(Pairs(one))
Canonical == (phase # "write" /\ Same(one, two)) =>
               LET a == Dedup(Sort(Entries(one)))
                   b == Dedup(Sort(Entries(two)))
               IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : Plain(a[i]) = Plain(b[i])
Complete == Len(Entries(one)) + Len(Comments(one)) + Len(Errors(one)) + Cardinality({ i \in 1..Len(one) : one[i].k = "blank" }) = Len(one)

Emit == IF phase = "done"
        THEN PrintT("B|" \o ToJson([one |-> one, two |-> two, same |-> Same(one, two), distinct |-> Cardinality(Pairs(one)),
                                    order |-> Dedup(Sort(Entries(one)))]))
        ELSE TRUE
=============================================================================
