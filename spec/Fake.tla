-------------------------------- MODULE Fake --------------------------------
(***************************************************************************)
(* Rebuilding although files are lost: with fake files asked for, the data *)
(* of a file that is nowhere is taken to be zeros.  Everything else of the *)
(* volumes stays as it was, and the checksum mismatch must be reported, so *)
(* that such a volume never passes for the original one.                   *)
(*                                                                         *)
(* A layout: [sizes, dir, vols], the records of each volume in order, each *)
(* with the file, its first unit and the number of units.                  *)
(* Faulty: "quiet" (nothing is checked for a fake file), "late" (a fake    *)
(* file starts anew in every volume: the check sees the last part alone)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Layouts, Faulty

VARIABLES env, v, r, open, sum, out, bad, result
vars == <<env, v, r, open, sum, out, bad, result>>

L == env.lay
Files == 1 .. Len(L.sizes)
\* the data of unit u of file f: never zeros, a fake unit is <<f, 0>>
Real(f, u) == <<f, u>>
FakeU(f) == <<f, 0>>
Unit(f, u) == IF env.st[f] = "there" THEN Real(f, u) ELSE FakeU(f)
Slice(f, a, n) == [i \in 1 .. n |-> Unit(f, a + i)]
True_(f, a, n) == [i \in 1 .. n |-> Real(f, a + i)]
Chosen == IF env.sel = 0 THEN 1 .. Len(L.vols) ELSE {w \in 1 .. Len(L.vols) : w \in L.sels[env.sel]}
Last(w, j) == LET x == L.vols[w][j] IN x.pos + x.len = L.sizes[x.f]
\* an empty file has one record, and it is the last one
Ends(w, j) == Last(w, j) /\ ~\E k \in (w + 1) .. Len(L.vols) : \E i \in 1 .. Len(L.vols[k]) : L.vols[k][i].f = L.vols[w][j].f

Init ==
    \E l \in Layouts : \E st \in [1 .. Len(l.sizes) -> {"there", "gone", "size"}] : \E s \in 0 .. Len(l.sels) :
    /\ env \in [lay : {l}, st : {st}, sel : {s}, fake : BOOLEAN, skip : BOOLEAN]
    /\ \A f \in 1 .. Len(l.sizes) : l.dir[f] => st[f] = "there"
    /\ Cardinality({f \in 1 .. Len(l.sizes) : st[f] = "size"}) <= 1
    /\ v = 1 /\ r = 1 /\ open = 0 /\ sum = <<>> /\ out = <<>> /\ bad = FALSE /\ result = "run"

NextVol ==
    /\ result = "run" /\ v <= Len(L.vols) /\ (v \notin Chosen \/ r > Len(L.vols[v]))
    /\ v' = v + 1 /\ r' = 1
    /\ out' = IF v \in Chosen /\ Len(L.vols[v]) = 0 THEN Append(out, [v |-> v, d |-> <<>>]) ELSE out
    /\ UNCHANGED <<env, open, sum, bad, result>>

Into(o, w, j, d) == IF j = 1 THEN Append(o, [v |-> w, d |-> d]) ELSE [o EXCEPT ![Len(o)].d = @ \o d]

Record ==
    /\ result = "run" /\ v <= Len(L.vols) /\ v \in Chosen /\ r <= Len(L.vols[v])
    /\ LET x == L.vols[v][r]
           new == open # x.f
       IN IF new /\ env.st[x.f] = "size"
          THEN result' = "size" /\ UNCHANGED <<v, r, open, sum, out, bad>>
          ELSE IF new /\ env.st[x.f] = "gone" /\ ~env.fake
          THEN result' = "notfound" /\ UNCHANGED <<v, r, open, sum, out, bad>>
          ELSE LET got == Slice(x.f, x.pos, x.len)
                   quiet == Faulty = "quiet" /\ env.st[x.f] = "gone"
                   all == IF Faulty = "late" /\ env.st[x.f] = "gone" THEN got ELSE Slice(x.f, 0, x.pos + x.len)
               IN /\ out' = Into(out, v, r, got)
                  /\ open' = x.f /\ sum' = all
                  /\ bad' = (bad \/ (~env.skip /\ ~quiet /\
                                     (IF Ends(v, r) THEN all # True_(x.f, 0, L.sizes[x.f]) ELSE got # True_(x.f, x.pos, x.len))))
                  /\ r' = r + 1 /\ UNCHANGED <<v, result>>
    /\ UNCHANGED env

Done == result = "run" /\ v > Len(L.vols) /\ result' = "done" /\ UNCHANGED <<env, v, r, open, sum, out, bad>>
Next == NextVol \/ Record \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Whole(_, _)
Whole(w, j) == IF j > Len(L.vols[w]) THEN <<>> ELSE True_(L.vols[w][j].f, L.vols[w][j].pos, L.vols[w][j].len) \o Whole(w, j + 1)
Right(i) == out[i].d = Whole(out[i].v, 1)
NeverSilent == (result = "done" /\ ~env.skip /\ \E i \in 1 .. Len(out) : ~Right(i)) => bad
OnlyLost == \A i \in 1 .. Len(out) : \A u \in 1 .. Len(out[i].d) : out[i].d[u][2] = 0 => env.st[out[i].d[u][1]] = "gone"
NoneLost == (result = "done" /\ \A f \in Files : env.st[f] = "there") => (~bad /\ \A i \in 1 .. Len(out) : Right(i))
OnRequest == (result = "done" /\ ~env.fake) => \A i \in 1 .. Len(out) : Right(i)

Emit == result # "run" =>
    PrintT("B|" \o ToJson([id |-> L.id, st |-> env.st, sel |-> env.sel, fake |-> env.fake, skip |-> env.skip, bad |-> bad, result |-> result,
                           out |-> [i \in 1 .. Len(out) |-> [v |-> out[i].v, right |-> Right(i)]]]))
=============================================================================
