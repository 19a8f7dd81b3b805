------------------------------- MODULE Music -------------------------------
(***************************************************************************)
(* MP3 and FLAC files with tags.  A file is a sequence of parts: tags      *)
(* ("id3" in front; "ape1" "ape2" "lyr1" "lyr2" "tag" behind), FLAC        *)
(* metadata blocks ("fl" is the marker, "b1".. blocks, "bl" the last one), *)
(* pieces of music ("m1" .. "m9", the first one contains the signature),   *)
(* and "j": something else that is not music.                              *)
(*                                                                         *)
(* A reader finds the music between the tags.  The SRS is the source file  *)
(* with a description in place of its music.  It is read in the same way,  *)
(* the music is looked up in another (retagged) file, and the source is    *)
(* put together again from both.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Kind,        \* "mp3" or "flac"
    Sources,     \* set of source files
    Mains,       \* set of files to rebuild from
    Broken       \* "none" or the name of a mistake, to see that the properties notice it

VARIABLES src, main, phase, file, lo, hi, step, srs, found, result
vars == <<src, main, phase, file, lo, hi, step, srs, found, result>>

MusicParts == {"m1", "m2", "m3", "m4", "m9", "r1"}
IsMusic(p) == p \in MusicParts
Sync(p) == IsMusic(p) \/ p = "srs"
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE "end"
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(*-- reading a file: the music is file[lo .. hi] ---------------------------*)
Steps == IF Kind = "mp3" THEN <<"id3", "dupe", "tag", "lyr2", "lyr1", "ape">> ELSE <<"id3", "blocks", "tag">>
Start(f, p) == /\ file' = f /\ lo' = 1 /\ hi' = Len(f) /\ step' = 1 /\ phase' = p

Trailing(names) == hi' = (IF hi >= lo /\ At(file, hi) \in names THEN hi - 1 ELSE hi) /\ lo' = lo
SyncAt == {i \in DOMAIN file : Sync(file[i])}
FirstSync == IF SyncAt = {} THEN Len(file) + 1 ELSE CHOOSE i \in SyncAt : \A j \in SyncAt : i <= j
LateId3 == {i \in lo .. Len(file) : file[i] = "id3" /\ i < FirstSync}

ReadStep ==
    /\ phase \in {"source", "srs", "main"} /\ step <= Len(Steps)
    /\ LET s == Steps[step] IN
       CASE s = "id3" ->
              IF At(file, lo) = "id3" THEN /\ lo' = lo + 1 /\ UNCHANGED <<hi, step>>
              ELSE /\ step' = step + 1 /\ UNCHANGED <<lo, hi>>
         [] s = "dupe" ->     \* another ID3 tag behind something between the first tag and the music
              /\ step' = step + 1 /\ UNCHANGED hi
              /\ lo' = IF lo > 1 /\ ~Sync(At(file, lo)) /\ LateId3 # {}
                       THEN (CHOOSE i \in LateId3 : \A k \in LateId3 : k <= i) + 1 ELSE lo
         [] s = "blocks" ->   \* FLAC: the marker and all blocks up to the last
              /\ step' = step + 1 /\ UNCHANGED hi
              /\ lo' = LET L == {i \in lo .. Len(file) : file[i] = "bl"} IN IF L = {} THEN Len(file) + 1 ELSE (CHOOSE i \in L : \A k \in L : i <= k) + 1
         [] s = "tag" ->
              /\ step' = step + 1 /\ Trailing({"tag"})
         [] s = "lyr2" -> /\ step' = step + 1 /\ Trailing(IF Broken = "nolyr2" /\ phase = "srs" THEN {} ELSE {"lyr2"})
         [] s = "lyr1" -> /\ step' = step + 1 /\ Trailing({"lyr1"})
         [] s = "ape" -> /\ step' = step + 1 /\ Trailing({"ape1", "ape2"})
    /\ UNCHANGED <<src, main, phase, file, srs, found, result>>

(*-- creation ----------------------------------------------------------------*)
Data(f) == Sub(f, lo, hi)
InsertAt(f) == IF Kind = "mp3" THEN lo ELSE (CHOOSE i \in DOMAIN f : f[i] = "fl") + 1
Parsed(p) == phase = p /\ step > Len(Steps)

Created ==
    /\ Parsed("source")
    /\ Data(file) # <<>>
    /\ srs' = LET pre == Sub(file, 1, lo - 1) post == Sub(file, hi + 1, Len(file)) IN
              [text |-> IF Kind = "mp3" THEN (IF Broken = "keepmusic" THEN pre \o <<"srs">> \o Data(file) \o post ELSE pre \o <<"srs">> \o post)
                        ELSE Sub(pre, 1, InsertAt(file) - 1) \o <<"srs">> \o Sub(pre, InsertAt(file), Len(pre)) \o post,
               len |-> hi - lo + 1, sig |-> file[lo], whole |-> src]
    /\ Start(srs'.text, "srs")
    /\ UNCHANGED <<src, main, found, result>>
NotCreated ==
    /\ Parsed("source") /\ Data(file) = <<>>
    /\ phase' = "done" /\ result' = "nomusic"
    /\ UNCHANGED <<src, main, file, lo, hi, step, srs, found>>

(*-- rebuild -------------------------------------------------------------------*)
SrsRead ==
    /\ Parsed("srs")
    /\ LET pre == SelectSeq(Sub(file, 1, lo - 1), LAMBDA x : Kind = "mp3" \/ x # "srs")
           post == Sub(file, hi + 1, Len(file))
       IN IF Data(file) = (IF Kind = "mp3" THEN <<"srs">> ELSE <<>>)
          THEN /\ srs' = srs @@ [pre |-> pre, post |-> post] /\ Start(main, "main") /\ UNCHANGED result
          ELSE /\ phase' = "done" /\ result' = "badsrs" /\ UNCHANGED <<srs, file, lo, hi, step>>
    /\ UNCHANGED <<src, main, found>>

Find ==
    /\ Parsed("main")
    /\ LET D == Data(file)
           sig == srs.sig
           hits == {i \in DOMAIN D : D[i] = sig}
           off == IF D = <<>> THEN 0
                  ELSE IF D[1] = sig THEN 1
                  ELSE IF Kind = "flac" \/ Sync(D[1]) \/ hits = {} THEN 0
                  ELSE CHOOSE i \in hits : \A k \in hits : i <= k
       IN IF off = 0 THEN /\ found' = 0 /\ phase' = "done" /\ result' = "notfound"
          ELSE /\ found' = lo + off - 1 /\ phase' = "extract" /\ UNCHANGED result
    /\ UNCHANGED <<src, main, file, lo, hi, step, srs>>

Extract ==
    /\ phase = "extract"
    /\ LET last == IF Kind = "flac" THEN hi ELSE Min(hi, found + srs.len - 1)      \* FLAC takes everything
           new == srs.pre \o Sub(file, found, last) \o srs.post
       IN /\ phase' = "done"
          /\ result' = IF new = srs.whole THEN "ok"                                \* size and checksum agree
                       ELSE IF last - found + 1 < srs.len THEN "short" ELSE "mismatch"
    /\ UNCHANGED <<src, main, file, lo, hi, step, srs, found>>

Init ==
    /\ src \in Sources /\ main \in Mains
    /\ phase = "source" /\ file = src /\ lo = 1 /\ hi = Len(src) /\ step = 1
    /\ srs = [text |-> <<>>, len |-> 0, sig |-> "", whole |-> src] /\ found = 0 /\ result = "none"
Next == ReadStep \/ Created \/ NotCreated \/ SrsRead \/ Find \/ Extract
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*-- what is promised --------------------------------------------------------*)
Count(s, p) == Cardinality({i \in DOMAIN s : s[i] = p})
Rank(p) == CASE p \in {"ape1", "ape2"} -> 1 [] p = "lyr1" -> 2 [] p = "lyr2" -> 3 [] p = "tag" -> 4 [] OTHER -> 0
MusicAt(s) == {i \in DOMAIN s : IsMusic(s[i])}
First(S) == CHOOSE i \in S : \A k \in S : i <= k
Last(S) == CHOOSE i \in S : \A k \in S : i >= k
Music(s) == IF MusicAt(s) = {} THEN <<>> ELSE SubSeq(s, First(MusicAt(s)), Last(MusicAt(s)))
Before(s) == Sub(s, 1, First(MusicAt(s)) - 1)
Behind(s) == Sub(s, Last(MusicAt(s)) + 1, Len(s))
Contiguous(s) == MusicAt(s) # {} /\ \A i \in First(MusicAt(s)) .. Last(MusicAt(s)) : IsMusic(s[i])
Known(s) == \A i \in DOMAIN s : Rank(s[i]) > 0 /\ (i > 1 => Rank(s[i - 1]) < Rank(s[i]))
(* tags where they belong: ID3v2 in front, the others in this order behind *)
Tidy(s) == /\ Contiguous(s)
           /\ IF Kind = "mp3" THEN (\A i \in DOMAIN Before(s) : Before(s)[i] = "id3") /\ Known(Behind(s))
              ELSE Behind(s) \in {<<>>, <<"tag">>}
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* a tidy source can be rebuilt from every tidy file with the same music, and for MP3 also when there is more behind
   it or something else (that does not look like music) between the ID3v2 tag and it *)
Promised ==
    /\ Tidy(src) /\ Contiguous(main)
    /\ IF Kind = "flac" THEN Tidy(main) /\ Music(main) = Music(src)
       ELSE /\ IsPrefix(Music(src), Music(main))
            /\ \A i \in DOMAIN Before(main) : Before(main)[i] \in {"id3", "j"}
            /\ Before(main) # <<>> => main[1] = "id3"        \* else it is not known to be an MP3 file

Sound == result = "ok" => (Music(src) # <<>> /\ Count(main, src[First(MusicAt(src))]) > 0)
Complete == (phase = "done" /\ Promised) => result = "ok"
(* the SRS has no music, and all tags of a tidy source *)
Clean == (phase \notin {"source"} /\ srs.text # <<>> /\ Tidy(src)) =>
             SelectSeq(srs.text, LAMBDA x : x # "srs") = SelectSeq(src, LAMBDA x : ~IsMusic(x))
ReadBack == (phase \in {"main", "extract"} /\ Tidy(src)) =>
               /\ srs.pre = Before(src) /\ srs.post = Behind(src)
Ends == <>(phase = "done")

Emit == phase # "done" \/ PrintT("B|" \o ToJson([src |-> src, main |-> main, result |-> result, promised |-> Promised, tidy |-> Tidy(src), text |-> srs.text]))
=============================================================================
