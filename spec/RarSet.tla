------------------------------- MODULE RarSet -------------------------------
(***************************************************************************)
(* A store-mode RAR volume set, the SRR made from it and the volumes that  *)
(* are rebuilt from the SRR and the extracted files.                       *)
(*                                                                         *)
(* Three machines run one after the other:                                 *)
(*   archiver   lays files out over volumes (nondeterministic layout)      *)
(*   ReScene    turns volumes into a header-only token list (the SRR)      *)
(*   rebuilder  replays the SRR one block at a time, reading source data   *)
(*                                                                         *)
(* Data is abstract: a file block token carries (f, pos, len) in units.    *)
(* The conformance harness concretises one unit to a run of bytes whose    *)
(* length differs per unit, so that every split point of the model is a    *)
(* split point of a real archive.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
    MaxFiles,      \* archived entries per set
    MaxUnits,      \* size of a file in units
    Caps,          \* volume capacities (units)
    Namings,       \* "old", "new", "num"
    RRs,           \* "none", "old", "new"
    Ends,          \* "none", "plain", "crc", "full", "p0w4"
    Comments,      \* subset of {"none","cmt","old"}
    Pads,          \* subset of BOOLEAN
    Stuffs,        \* zero units a file record has behind the data of its file, subset of {0, 1}
    Sources,       \* "sfv", "rar", "both"
    Sets,          \* number of sets in one SRR, subset of {1,2}
    MaxVols

VARIABLES phase, cfg, files, vols, cur, off, used, srr, rd, src, out

vars == <<phase, cfg, files, vols, cur, off, used, srr, rd, src, out>>

Entry == [kind : {"file"}, size : 0..MaxUnits] \cup [kind : {"dir"}, size : {0}]

NoSrc == [f |-> 0, pos |-> 0]

\* len: the units of packed data, of which the last zero ones are not from the file
T(t, f, pos, len, z, a, b) == [t |-> t, f |-> f, pos |-> pos, len |-> len, zero |-> z, before |-> a, after |-> b]
Plain(t) == T(t, 0, 0, 0, 0, FALSE, FALSE)

Init ==
    /\ phase = "files"
    /\ cfg \in [cap : Caps, naming : Namings, rr : RRs, end : Ends, cmt : Comments, pad : Pads, stuff : Stuffs, src : Sources, sets : Sets]
    /\ (cfg.pad => cfg.end \notin {"none", "p0w4"})     \* superfluous bytes are only recognisable after an end block
    /\ files = <<>> /\ vols = <<>> /\ cur = 1 /\ off = 0 /\ used = 0
    /\ srr = <<>> /\ rd = 1 /\ src = NoSrc /\ out = <<>>

(*-- archiver ------------------------------------------------------------*)
AddFile ==
    /\ phase = "files" /\ Len(files) < MaxFiles
    /\ \E e \in Entry : files' = Append(files, e)
    /\ UNCHANGED <<phase, cfg, vols, cur, off, used, srr, rd, src, out>>

Head_(first) ==
    <<Plain("marker"), Plain("main")>> \o (IF first /\ cfg.cmt # "none" THEN <<Plain(cfg.cmt)>> ELSE <<>>)

StartPacking ==
    /\ phase = "files" /\ Len(files) > 0
    /\ phase' = "pack" /\ vols' = <<Head_(TRUE)>>
    /\ UNCHANGED <<cfg, files, cur, off, used, srr, rd, src, out>>

Min(a, b) == IF a < b THEN a ELSE b

Room == cfg.cap - used
Rest == files[cur].size - off

PackChunk ==
    /\ phase = "pack" /\ cur <= Len(files)
    /\ (Room > 0 \/ files[cur].size = 0)
    /\ LET n == Min(Room, Rest)
           last == off + n = files[cur].size
           z == IF last /\ files[cur].size > 0 THEN cfg.stuff ELSE 0        \* the record of the last part can be longer
           tok == T(IF files[cur].kind = "dir" THEN "dir" ELSE "file", cur, off, n + z, z, off > 0, ~last)
       IN /\ vols' = [vols EXCEPT ![Len(vols)] = Append(@, tok)]
          /\ used' = used + n
          /\ IF off + n = files[cur].size
             THEN cur' = cur + 1 /\ off' = 0
             ELSE cur' = cur /\ off' = off + n
    /\ UNCHANGED <<phase, cfg, files, srr, rd, src, out>>

Tail_ == (IF cfg.rr = "none" THEN <<>> ELSE <<Plain("rr" \o cfg.rr)>>)
         \o (IF cfg.end = "none" THEN <<>> ELSE <<Plain("end")>>)
         \o (IF cfg.pad THEN <<Plain("pad")>> ELSE <<>>)

NextVolume ==
    /\ phase = "pack" /\ cur <= Len(files) /\ Room = 0 /\ files[cur].size > 0
    /\ Len(vols) < MaxVols
    /\ vols' = Append([vols EXCEPT ![Len(vols)] = @ \o Tail_], Head_(FALSE))
    /\ used' = 0
    /\ UNCHANGED <<phase, cfg, files, cur, off, srr, rd, src, out>>

Finish ==
    /\ phase = "pack" /\ cur = Len(files) + 1
    /\ vols' = [vols EXCEPT ![Len(vols)] = @ \o Tail_]
    /\ phase' = "packed"
    /\ UNCHANGED <<cfg, files, cur, off, used, srr, rd, src, out>>

(*-- ReScene: keep every header, drop the archived data and the recovery data ---*)
HasData(tok) == tok.t \in {"file", "rrold", "rrnew"}
Header(tok) == [tok EXCEPT !.pos = 0, !.zero = 0]   \* a header does not say where in the file its data starts, nor where it ends
VolBlocks(k) == [i \in 1 .. Len(vols[k]) |-> Header(vols[k][i])]
RECURSIVE Concat(_)
Concat(k) == IF k > Len(vols) THEN <<>> ELSE <<T("srrrar", k, 0, 0, 0, FALSE, FALSE)>> \o VolBlocks(k) \o Concat(k + 1)

Rescene ==
    /\ phase = "packed"
    /\ srr' = Concat(1)
    /\ phase' = "rebuild"
    /\ UNCHANGED <<cfg, files, vols, cur, off, used, rd, src, out>>

(*-- rebuilder: one SRR block per step ------------------------------------*)
Put(tok) == out' = [out EXCEPT ![Len(out)] = Append(@, tok)]
Step(t) == phase = "rebuild" /\ rd <= Len(srr) /\ srr[rd].t \in t /\ rd' = rd + 1

RebuildOpen ==
    /\ Step({"srrrar"}) /\ out' = Append(out, <<>>)
    /\ UNCHANGED <<phase, cfg, files, vols, cur, off, used, srr, src>>

RebuildData ==
    /\ Step({"file", "dir"})
    /\ LET b == srr[rd]
           s == IF src.f = b.f THEN src ELSE [f |-> b.f, pos |-> 0]
           n == Min(b.len, files[b.f].size - s.pos)          \* what is left of the file, zeros for what is missing
       IN /\ Put([b EXCEPT !.pos = s.pos, !.zero = b.len - n])
          /\ src' = [f |-> b.f, pos |-> s.pos + n]
    /\ UNCHANGED <<phase, cfg, files, vols, cur, off, used, srr>>

RebuildCopy ==
    /\ Step({"marker", "main", "cmt", "old", "rrold", "rrnew", "end", "pad"})
    /\ Put(srr[rd])
    /\ UNCHANGED <<phase, cfg, files, vols, cur, off, used, srr, src>>

Done ==
    /\ phase = "rebuild" /\ rd = Len(srr) + 1
    /\ phase' = "done"
    /\ UNCHANGED <<cfg, files, vols, cur, off, used, srr, rd, src, out>>

Next == AddFile \/ StartPacking \/ PackChunk \/ NextVolume \/ Finish \/ Rescene
        \/ RebuildOpen \/ RebuildData \/ RebuildCopy \/ Done
Spec == Init /\ [][Next]_vars

(*-- properties -------------------------------------------------------------*)
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ \A i \in 1 .. Len(s) : s[i] = t[i]

\* nothing wrong is ever written
NeverWrong ==
    phase \in {"rebuild", "done"} =>
        /\ Len(out) <= Len(vols)
        /\ \A k \in 1 .. Len(out) : IsPrefixOf(out[k], vols[k])
RoundTrip == phase = "done" => out = vols

\* an SRR says which file data belongs where, but contains none of it
SrrHasNoData == \A i \in 1 .. Len(srr) : srr[i].pos = 0 /\ srr[i].zero = 0

\* every file is laid out completely, in order, exactly once
RECURSIVE Lay(_, _, _)
Lay(f, k, i) ==
    IF k > Len(vols) THEN <<>>
    ELSE IF i > Len(vols[k]) THEN Lay(f, k + 1, 1)
    ELSE (IF vols[k][i].f = f THEN <<vols[k][i]>> ELSE <<>>) \o Lay(f, k, i + 1)
RECURSIVE Contiguous(_, _)
Contiguous(s, p) == IF s = <<>> THEN TRUE ELSE Head(s).pos = p /\ Contiguous(Tail(s), p + Head(s).len - Head(s).zero)
LayoutOK ==
    phase = "packed" => \A f \in 1 .. Len(files) :
        LET l == Lay(f, 1, 1) IN
            /\ Len(l) >= 1 /\ Contiguous(l, 0)
            /\ l[1].before = FALSE /\ l[Len(l)].after = FALSE
            /\ \A i \in 1 .. Len(l) - 1 : l[i].zero = 0
            /\ \A i \in 1 .. Len(l) - 1 : l[i].after /\ l[i + 1].before

\* what the listing must say, derived from the SRR tokens only
RECURSIVE SumLen(_, _, _)
SumLen(s, i, f) == IF i > Len(s) THEN 0 ELSE (IF s[i].t = "file" /\ s[i].f = f THEN s[i].len ELSE 0) + SumLen(s, i + 1, f)
Listing ==
    [ volumes  |-> Cardinality({i \in 1 .. Len(srr) : srr[i].t = "srrrar"}),
      archived |-> [f \in 1 .. Len(files) |-> SumLen(srr, 1, f)],
      recovery |-> IF cfg.rr = "none" THEN 0 ELSE Cardinality({i \in 1 .. Len(srr) : srr[i].t = "rr" \o cfg.rr}) ]
ListingOK ==
    phase = "done" =>
        /\ Listing.volumes = Len(vols)
        /\ \A f \in 1 .. Len(files) : Listing.archived[f] = files[f].size + (IF files[f].size > 0 THEN cfg.stuff ELSE 0)
        /\ (cfg.rr # "none" => Listing.recovery = Len(vols))

Emit == phase = "done" =>
    PrintT("B|" \o ToJson([cfg |-> cfg, files |-> files, vols |-> vols, listing |-> Listing]))
=============================================================================
