----------------------------- MODULE SrrCreate -----------------------------
(***************************************************************************)
(* Creating an SRR: which parts end up in it and in which order.  The      *)
(* request names files to store and the sets to process (through their SFV *)
(* or their first volume); the writer emits one part per step.             *)
(*   hdr                header block                                       *)
(*   st  [item/sfv]     stored file, named relative to the release folder  *)
(*                      when paths are kept, by its base name otherwise or *)
(*                      when it lies outside the release folder            *)
(*   set [k]            all volumes of set k, in archive order             *)
(*   oso [k]            hashes of the videos of set k                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Items,        \* store requests
          MissingItems, \* those that do not exist on disk
          OutsideItems, \* those outside the release folder
          MaxStore, MaxSets

VARIABLES req, phase, i, out, done
vars == <<req, phase, i, out, done>>

SeqsUpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
NoDup(s) == \A a, b \in 1 .. Len(s) : a # b => s[a] # s[b]

Init ==
    /\ req \in [store : {s \in SeqsUpTo(Items, MaxStore) : NoDup(s)},
                src : UNION {[1 .. k -> {"sfv", "rar"}] : k \in 1 .. MaxSets},
                paths : BOOLEAN, oso : BOOLEAN]
    /\ phase = "store" /\ i = 1 /\ out = <<[k |-> "hdr"]>> /\ done = {}

StoreName(it) == IF ~req.paths \/ it \in OutsideItems THEN "base" ELSE "rel"

Store ==
    /\ phase = "store" /\ i <= Len(req.store)
    /\ out' = IF req.store[i] \in MissingItems THEN out
              ELSE Append(out, [k |-> "st", item |-> req.store[i], as |-> StoreName(req.store[i])])
    /\ i' = i + 1 /\ UNCHANGED <<req, phase, done>>
ToSfv == phase = "store" /\ i = Len(req.store) + 1 /\ phase' = "sfv" /\ i' = 1 /\ UNCHANGED <<req, out, done>>
StoreSfv ==
    /\ phase = "sfv" /\ i <= Len(req.src)
    /\ out' = IF req.src[i] = "sfv" THEN Append(out, [k |-> "sfv", set |-> i, as |-> IF req.paths THEN "rel" ELSE "base"])
              ELSE out
    /\ i' = i + 1 /\ UNCHANGED <<req, phase, done>>
ToSets == phase = "sfv" /\ i = Len(req.src) + 1 /\ phase' = "sets" /\ i' = 1 /\ UNCHANGED <<req, out, done>>
Volumes ==
    /\ phase = "sets" /\ i <= Len(req.src)
    /\ out' = Append(out, [k |-> "set", set |-> i, as |-> IF req.paths THEN "rel" ELSE "base"])
    /\ done' = done \cup {i}
    /\ i' = i + 1 /\ UNCHANGED <<req, phase>>
ToOso == phase = "sets" /\ i = Len(req.src) + 1 /\ phase' = (IF req.oso THEN "oso" ELSE "done") /\ i' = 1
         /\ UNCHANGED <<req, out, done>>
Hashes ==
    /\ phase = "oso" /\ i <= Len(req.src)
    /\ out' = Append(out, [k |-> "oso", set |-> i])
    /\ i' = i + 1 /\ UNCHANGED <<req, phase, done>>
Finish == phase = "oso" /\ i = Len(req.src) + 1 /\ phase' = "done" /\ UNCHANGED <<req, i, out, done>>
Next == Store \/ ToSfv \/ StoreSfv \/ ToSets \/ Volumes \/ ToOso \/ Hashes \/ Finish
Spec == Init /\ [][Next]_vars

Kinds == <<"hdr", "st", "sfv", "set", "oso">>
RankOf(k) == CHOOSE n \in 1 .. 5 : Kinds[n] = k
Ordered == \A a, b \in 1 .. Len(out) : a < b => RankOf(out[a].k) <= RankOf(out[b].k)
Complete == phase = "done" =>
    /\ done = 1 .. Len(req.src)
    /\ \A n \in 1 .. Len(req.store) : req.store[n] \notin MissingItems =>
          Cardinality({a \in 1 .. Len(out) : out[a].k = "st" /\ out[a].item = req.store[n]}) = 1
    /\ \A n \in 1 .. Len(req.src) : (req.src[n] = "sfv") = (\E a \in 1 .. Len(out) : out[a].k = "sfv" /\ out[a].set = n)
NoEscape == \A a \in 1 .. Len(out) : out[a].k = "st" /\ out[a].item \in OutsideItems => out[a].as = "base"

Emit == phase = "done" => PrintT("B|" \o ToJson([req |-> req, out |-> out]))
=============================================================================
