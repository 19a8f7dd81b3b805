------------------------------ MODULE Rebuild ------------------------------
(***************************************************************************)
(* Reconstruction against a source tree that need not be right.            *)
(*                                                                         *)
(* The rebuilder handles the selected volumes in order.  For every chunk   *)
(* of archived data it needs the source open: it looks under the hinted    *)
(* name or the archive path, then (automatic search) for any file with the *)
(* same extension and size.  Sizes are checked when a source is opened,    *)
(* checksums while data is written: per volume for a chunk that continues, *)
(* over the whole file for the last chunk.                                 *)
(*                                                                         *)
(* One archived file (F) has an unusual source; the others are in place.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Layouts,    \* [id, sizes (0 for directories/empty), dir, vols : seq of seq of [f, pos, len],
                \*  sels : seq of sets of volumes that some selection string picks out]
    Reals,      \* where the real file is: subset of {"path", "moved", "hinted", "none"}
    Contents,   \* "right", "flip", "short", "long"
    Hints,      \* "none", "real", "bad", "decoy"
    Outs        \* output volume `at' exists already: "free" (no), "yes" (replace it), "no" (keep it)

VARIABLES env, vol, ch, opened, file, ev, written, result
vars == <<env, vol, ch, opened, file, ev, written, result>>

L == env.layout
Files == 1 .. Len(L.sizes)
NV == Len(L.vols)

Init ==
    /\ \E l \in Layouts :
         env \in [layout : {l}, f : {i \in 1 .. Len(l.sizes) : ~l.dir[i]}, real : Reals, content : Contents,
                  flip : 0 .. 6, hint : Hints, decoy : BOOLEAN, auto : BOOLEAN, skip : BOOLEAN,
                  out : Outs, at : 1 .. Len(l.vols), sel : 0 .. Len(l.sels)]   \* sel = 0: everything
    /\ (env.content = "flip") => (env.flip < L.sizes[env.f])
    /\ (env.content # "flip") => env.flip = 0
    /\ (env.content = "short") => L.sizes[env.f] > 0
    /\ (env.real = "none") => env.content = "right"
    /\ (env.hint = "decoy") => env.decoy
    /\ (env.out = "free") => env.at = 1
    /\ (env.decoy) => L.sizes[env.f] > 0
    /\ vol = 0 /\ ch = 1 /\ opened = "no" /\ file = 0 /\ ev = FALSE /\ written = <<>> /\ result = "run"

Selected(v) == IF env.sel = 0 THEN TRUE ELSE v \in L.sels[env.sel]

(*-- what the tree holds for file F; every other file is right and in place --*)
SizeOf(o) == IF o = "real" THEN (CASE env.content = "short" -> "less" [] env.content = "long" -> "more" [] OTHER -> "same") ELSE "same"
RightExt(o) == o # "real" \/ env.real # "hinted"
Tree == (IF env.real # "none" THEN {"real"} ELSE {}) \cup (IF env.decoy THEN {"decoy"} ELSE {})
Primary == CASE env.hint = "none" -> (IF env.real = "path" THEN {"real"} ELSE {})
             [] env.hint = "real" -> (IF env.real # "none" THEN {"real"} ELSE {})
             [] env.hint = "bad" -> {}
             [] env.hint = "decoy" -> {"decoy"}
Found == {o \in Tree : RightExt(o) /\ SizeOf(o) = "same"}
Candidates == IF Primary # {} THEN Primary ELSE IF env.auto THEN Found ELSE {}

(*-- is unit u of the opened source what the archive had there --*)
RightUnit(f, u, o) == f # env.f \/ (o = "real" /\ (env.content = "flip" => u # env.flip))
RightRange(f, a, n, o) == \A u \in a .. a + n - 1 : RightUnit(f, u, o)

Chunks == IF vol = 0 THEN <<>> ELSE L.vols[vol]
At == Chunks[ch]

NextVol ==
    /\ result = "run" /\ (vol = 0 \/ ch > Len(Chunks) \/ ~Selected(vol))
    /\ IF vol = NV THEN result' = "done" /\ UNCHANGED <<env, vol, ch, opened, file, ev, written>>
       ELSE /\ vol' = vol + 1 /\ ch' = 1
            /\ IF Selected(vol + 1) /\ env.out = "no" /\ vol + 1 = env.at
               THEN result' = "denied" /\ UNCHANGED written
               ELSE /\ result' = "run"
                    /\ written' = IF Selected(vol + 1) THEN Append(written, [v |-> vol + 1, ok |-> TRUE]) ELSE written
            /\ UNCHANGED <<env, opened, file, ev>>

Open ==
    /\ result = "run" /\ vol > 0 /\ Selected(vol) /\ ch <= Len(Chunks) /\ file # At.f
    /\ IF L.dir[At.f] \/ At.f # env.f
       THEN file' = At.f /\ opened' = "right" /\ UNCHANGED result
       ELSE IF Candidates = {} THEN result' = "notfound" /\ UNCHANGED <<file, opened>>
       ELSE \E o \in Candidates :
              IF SizeOf(o) = "same" THEN file' = At.f /\ opened' = o /\ UNCHANGED result
              ELSE result' = "size" /\ UNCHANGED <<file, opened>>
    /\ UNCHANGED <<env, vol, ch, ev, written>>

Last(c) == c.pos + c.len = L.sizes[c.f]
Write ==
    /\ result = "run" /\ vol > 0 /\ Selected(vol) /\ ch <= Len(Chunks) /\ file = At.f
    /\ LET good == RightRange(At.f, At.pos, At.len, opened)
           whole == RightRange(At.f, 0, L.sizes[At.f], opened)
       IN /\ written' = IF good THEN written ELSE [written EXCEPT ![Len(written)].ok = FALSE]
          /\ ev' = (ev \/ (~env.skip /\ (IF Last(At) THEN ~whole ELSE ~good)))
    /\ ch' = ch + 1
    /\ UNCHANGED <<env, vol, opened, file, result>>

Next == NextVol \/ Open \/ Write
Spec == Init /\ [][Next]_vars

(*-- properties --*)
Done == result # "run"
NoSilentWrong == result = "done" /\ ~env.skip /\ ~ev => \A i \in 1 .. Len(written) : written[i].ok
OnlySelected == \A i \in 1 .. Len(written) : Selected(written[i].v)
NeverWithoutConsent == env.out = "no" => \A i \in 1 .. Len(written) : written[i].v # env.at
Available == env.content = "right" /\
    \/ env.real = "path" /\ env.hint = "none"
    \/ env.hint = "real" /\ env.real # "none"
    \/ env.auto /\ env.real \in {"path", "moved"} /\ ~env.decoy /\ env.hint # "decoy"
FoundIfAvailable == Done /\ Available /\ result # "denied" =>
    result = "done" /\ ~ev /\ \A i \in 1 .. Len(written) : written[i].ok
CompleteIfDone == result = "done" => Len(written) = Cardinality({v \in 1 .. NV : Selected(v)})

Emit == Done => PrintT("B|" \o ToJson([env |-> [env EXCEPT !.layout = env.layout.id], res |-> result, ev |-> ev, w |-> written,
                                        avail |-> Available]))
=============================================================================
