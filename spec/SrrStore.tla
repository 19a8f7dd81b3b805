------------------------------ MODULE SrrStore ------------------------------
(***************************************************************************)
(* Histories of stored-file edits on one SRR: add, remove, rename.  Each   *)
(* action is one public call; its result is "ok" or the kind of refusal,   *)
(* and a refused call leaves the file as it was.                           *)
(***************************************************************************)
EXTENDS SrrFile, TLC, Json

CONSTANTS
    Inits,       \* initial SRR part sequences
    Disk,        \* function: file name on disk (relative path) -> content id
    Reqs,        \* add requests: sequences of relative paths (may be missing on disk)
    RemSets,     \* remove requests (sets of names)
    Renames,     \* pairs <<old, new>>
    Bad,         \* names with characters that may not be stored
    Base,        \* function: path -> its last element
    Depth

VARIABLES srr, h

Exists(p) == p \in DOMAIN Disk
Rng(s) == {s[i] : i \in 1 .. Len(s)}

StoreName(p, paths) == IF paths THEN p ELSE Base[p]
NewBlocks(req, paths) ==
    LET f == SelectSeq(req, Exists) IN [i \in 1 .. Len(f) |-> St(StoreName(f[i], paths), Disk[f[i]])]

Log(op, res) == h' = Append(h, [op |-> op, res |-> res, srr |-> srr'])

Add ==
    \E req \in Reqs, paths \in BOOLEAN :
        IF \E n \in Names(srr) : n \in Rng(req)
        THEN /\ srr' = srr /\ Log([o |-> "add", req |-> req, paths |-> paths], "dupe")
        ELSE IF \E i \in 1 .. Len(req) : Exists(req[i]) /\ StoreName(req[i], paths) \in Bad
        THEN /\ srr' = srr /\ Log([o |-> "add", req |-> req, paths |-> paths], "badname")
        ELSE /\ srr' = InsertStored(srr, NewBlocks(req, paths))
             /\ Log([o |-> "add", req |-> req, paths |-> paths], "ok")

Remove ==
    \E names \in RemSets :
        /\ srr' = RemoveNames(srr, names)
        /\ Log([o |-> "remove", names |-> names], "ok")

Rename ==
    \E p \in Renames :
        LET a == p[1]  b == p[2]
            res == IF a \notin Names(srr) THEN "missing" ELSE IF b \in Bad THEN "badname" ELSE "ok"
        IN /\ srr' = IF res = "ok" THEN RenameFirst(srr, a, b) ELSE srr
           /\ Log([o |-> "rename", a |-> a, b |-> b], res)

Init == srr \in Inits /\ h = <<[op |-> [o |-> "init"], res |-> "ok", srr |-> srr]>>
Next == Len(h) <= Depth /\ (Add \/ Remove \/ Rename)
Spec == Init /\ [][Next]_<<srr, h>>

(*-- properties --*)
Start == h[1].srr
\* nothing but stored files ever changes, and the order of everything else is kept
RestUntouched == RestOf(srr) = RestOf(Start)
\* a refusal changes nothing
RefusalsAreNoOps == \A i \in 2 .. Len(h) : h[i].res # "ok" => h[i].srr = h[i - 1].srr
\* removing really removes; renaming keeps position and bytes
RemoveComplete == \A i \in 2 .. Len(h) : h[i].op.o = "remove" => Names(h[i].srr) \cap h[i].op.names = {}
RenameKeepsData == \A i \in 2 .. Len(h) : h[i].op.o = "rename" =>
    /\ Len(h[i].srr) = Len(h[i - 1].srr)
    /\ \A j \in 1 .. Len(h[i].srr) : h[i].srr[j].d = h[i - 1].srr[j].d /\ h[i].srr[j].k = h[i - 1].srr[j].k
\* adding keeps all earlier stored files, in order, in front of or around the new ones
AddKeeps == \A i \in 2 .. Len(h) : h[i].op.o = "add" =>
    LET old == StoredOf(h[i - 1].srr)  new == StoredOf(h[i].srr)
    IN \E p \in 0 .. Len(old) : LET k == Len(new) - Len(old) IN
         SubSeq(new, 1, p) \o SubSeq(new, p + k + 1, Len(new)) = old

Emit == Len(h) = Depth + 1 => PrintT("B|" \o ToJson(h))
=============================================================================
