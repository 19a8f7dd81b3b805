-------------------------------- MODULE Yenc --------------------------------
(***************************************************************************)
(* An article in yEnc: bytes are shifted, the critical ones escaped; the   *)
(* encoder may also escape others, may break lines anywhere outside of an  *)
(* escape pair; the server doubles a dot at the start of a line, and the   *)
(* client removes it once.  Bytes are classes, named after what they are   *)
(* when encoded.  The decoder is a machine over the characters.            *)
(* Then the frame: the part line and the trailer may be absent or wrong.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Classes,       \* of the encoded bytes
          MaxBytes, Frames, Want    \* Want: {"all", "part"}: the whole article or only its first lines

VARIABLES data, lines, frame, want, pc

vars == <<data, lines, frame, want, pc>>
Critical == {"nul", "lf", "cr", "eq"}
Optional == {"tab", "sp", "dot", "esc"}

\* characters on a line: a class, or "=" followed by the class that was escaped
Chars(c, escaped) == IF escaped THEN <<"=", "*" \o c>> ELSE <<c>>

Init == /\ data = <<>> /\ lines = <<<<>>>> /\ frame \in Frames /\ want \in Want /\ pc = "enc"

Put == /\ pc = "enc" /\ Len(data) < MaxBytes
       /\ \E c \in Classes, e \in BOOLEAN :
            /\ (c \in Critical => e) /\ (c \notin Critical \cup Optional => ~e)
            /\ data' = Append(data, c)
            /\ lines' = [lines EXCEPT ![Len(lines)] = @ \o Chars(c, e)]
       /\ UNCHANGED <<frame, want, pc>>
Break == /\ pc = "enc" /\ lines[Len(lines)] # <<>> /\ Len(data) < MaxBytes
         /\ lines' = Append(lines, <<>>) /\ UNCHANGED <<data, frame, want, pc>>
Finish == /\ pc = "enc" /\ data # <<>> /\ pc' = "done" /\ UNCHANGED <<data, lines, frame, want>>
Next == Put \/ Break \/ Finish
Spec == Init /\ [][Next]_vars

Starts(l, c) == l # <<>> /\ Head(l) = c
Stuff(l) == IF Starts(l, "dot") THEN <<"dot">> \o l ELSE l
Unstuff(l) == IF Len(l) > 1 /\ l[1] = "dot" /\ l[2] = "dot" THEN Tail(l) ELSE l
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Plain == [c \in {"*" \o x : x \in Critical \cup Optional} |-> CHOOSE x \in Critical \cup Optional : "*" \o x = c]
\* the decoder
RECURSIVE Dec(_)
Dec(s) == IF s = <<>> THEN <<>>
          ELSE IF Head(s) = "=" THEN <<Plain[s[2]]>> \o Dec(Tail(Tail(s)))
          ELSE <<Head(s)>> \o Dec(Tail(s))
Wire == [i \in 1 .. Len(lines) |-> Stuff(lines[i])]
Decoded == Dec(Cat([i \in 1 .. Len(Wire) |-> Unstuff(Wire[i])]))

\* frame: [part, total, yend, crc]; yend "none": cut off; crc "wrong"/"none"
Outcome == IF frame.yend = "none" /\ want = "all" THEN "reject"
           ELSE IF want = "all" /\ frame.crc # "right" /\ frame.check THEN "reject"
           ELSE "data"

RoundTrip == Decoded = data
\* the client takes away one dot, not more
OneDot == \A i \in 1 .. Len(lines) : Unstuff(Stuff(lines[i])) = lines[i]
\* nothing that is not a line of the frame looks like one ("=y" is not in the data)
NoFrame == \A i \in 1 .. Len(lines) : Len(lines[i]) > 1 => ~(lines[i][1] = "=" /\ lines[i][2] = "y")

Emit == pc = "done" => PrintT("B|" \o ToJson([data |-> data, lines |-> lines, frame |-> frame, want |-> want, res |-> Outcome]))
=============================================================================
