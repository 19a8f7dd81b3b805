----------------------------- MODULE Release ------------------------------
(* The automatic scan of a release directory.  A release is a set of items    *)
(* from a catalogue: side files, samples, volume sets, tracks.  The scan goes *)
(* through its phases; each of them adds to the list of files to store.  The  *)
(* phases and the rules are those of the documentation: nfo, m3u, proofs and   *)
(* covers, logs, cue sheets, an SRS for each sample or track (a text file     *)
(* with the error for one that is no good), SRS files that were there, the    *)
(* volume of a fix, SRRs of the subtitles, the other SFVs and the main SFVs   *)
(* at the end.  Music releases are sorted on name with the nfo first.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool,       \* the items that can be chosen
          MaxItems,
          Names,      \* what kind of name the release has: "plain", "fix", "subpack"
          Options     \* sets of options

(* what: what the item is; where: the folder it is in; word: what its name tells; big: more than 100000 bytes *)
I(what, where, word, big) == [what |-> what, where |-> where, word |-> word, big |-> big]
Catalogue ==
  [ nfo |-> I("nfo", "", "", FALSE), nfocd |-> I("nfo", "CD1", "", FALSE), imdb |-> I("nfo", "", "site", FALSE), nonfo |-> I("nfo", "", "nonfo", FALSE),
    m3u |-> I("m3u", "", "", FALSE),
    jpgproof |-> I("image", "Proof", "", FALSE), pngcover |-> I("image", "Covers", "", FALSE), gifshots |-> I("image", "Screenshots", "", FALSE),
    jpegcmp |-> I("image", "Compare", "", FALSE), bmpsample |-> I("image", "Sample", "", FALSE), proofroot |-> I("image", "", "proof", FALSE),
    zeros |-> I("image", "", "zeros", FALSE), zerosone |-> I("image", "Extra", "zeros", FALSE), small |-> I("image", "", "like", FALSE),
    like |-> I("image", "", "like", TRUE), likecap |-> I("image", "", "likecap", TRUE), group |-> I("image", "", "group", TRUE), other |-> I("image", "", "other", TRUE),
    poster |-> I("image", "", "poster", TRUE), posterpng |-> I("image", "", "poster", TRUE), space |-> I("image", "", "space", TRUE), folder |-> I("image", "", "folder", TRUE),
    albumart |-> I("image", "", "albumart", TRUE), spaceproof |-> I("image", "Proof", "space", FALSE),
    proofrar |-> I("rar", "Proof", "image", FALSE), prooftxt |-> I("rar", "Proof", "text", FALSE), otherrar |-> I("rar", "Extra", "image", FALSE),
    proofsfv |-> I("proofset", "Proof", "image", FALSE),
    log |-> I("log", "", "", FALSE), logcd |-> I("log", "CD1", "", FALSE), rushchk |-> I("log", "", "site", FALSE), hidlog |-> I("log", "", "hidden", FALSE),
    cue |-> I("cue", "", "", FALSE),
    smp |-> I("sample", "Sample", "ok", FALSE), smp2 |-> I("sample", "Sample", "ok", FALSE), twin |-> I("sample", "Sample", "ok", FALSE), bad |-> I("sample", "Sample", "bad", FALSE),
    badtwin |-> I("sample", "Sample", "bad", FALSE), zero |-> I("sample", "Sample", "zero", FALSE), vob |-> I("sample", "Sample", "ok", FALSE), rarvob |-> I("sample", "Sample", "ok", FALSE), vobzero |-> I("sample", "Sample", "zero", FALSE),
    rootsmp |-> I("sample", "", "ok", FALSE), video |-> I("video", "", "", FALSE), mvideo |-> I("mvideo", "", "ok", FALSE),
    srs |-> I("srs", "Sample", "alone", FALSE), srsboth |-> I("srs", "Sample", "smp", FALSE),
    txt |-> I("none", "", "", FALSE), exe |-> I("none", "Extra", "", FALSE), diz |-> I("none", "", "", FALSE),
    main |-> I("set", "", "", FALSE), cd1 |-> I("set", "CD1", "", FALSE), cd2 |-> I("set", "CD2", "", FALSE),
    subs |-> I("subs", "Subs", "", FALSE), subsnamed |-> I("subs", "", "vobsubs", FALSE), subsdeep |-> I("subs", "Subs", "deep", FALSE), subscd |-> I("subs", "Subs/CD1", "", FALSE),
    fixdir |-> I("subs", "Some.Fix", "", FALSE),
    mp3 |-> I("track", "", "ok", FALSE), mp3b |-> I("track", "", "ok", FALSE), flac |-> I("track", "", "ok", FALSE), mp3crc |-> I("track", "", "crc", FALSE), mp3bad |-> I("track", "", "bad", FALSE),
    disc1 |-> I("track", "CD1", "ok", FALSE), disc2 |-> I("track", "CD2", "ok", FALSE), disccrc |-> I("track", "CD3", "crc", FALSE) ]      \* tracks of the same name on three discs, an SFV for each
Item(i) == Catalogue[i]

VARIABLES items, name, opt, pc, stored, result
vars == << items, name, opt, pc, stored, result >>

Of(kind) == { i \in items : Item(i).what = kind }
Music == Of("track") # {}

(* what goes together: one main set or several discs, no music with volumes *)
Sane(s) == LET H(k) == { i \in s : Item(i).what = k }
           IN /\ ~({"main"} \subseteq s /\ s \cap {"cd1", "cd2"} # {})
              /\ (H("track") # {} => H("set") \cup H("subs") \cup H("proofset") \cup H("rar") = {})

None == [more |-> FALSE, nosrs |-> FALSE, subs |-> FALSE, verify |-> FALSE, skip |-> "", regex |-> "", have |-> "no", answer |-> "y", inrel |-> FALSE, broken |-> "", comp |-> FALSE]
Init == items = {} /\ name \in Names /\ opt = None /\ pc = "choose" /\ stored = << >> /\ result = "none"
Choose == /\ pc = "choose" /\ Cardinality(items) < MaxItems
          /\ \E i \in Pool \ items : Sane(items \cup {i}) /\ items' = items \cup {i}
          /\ UNCHANGED << name, opt, pc, stored, result >>

(* the options that say something about this release *)
Fits(o) == /\ (o.skip # "" => o.skip \in items) /\ (o.regex # "" => o.regex \in items)
           /\ (o.broken # "" => Of("set") # {})
           /\ (o.broken = "packed" /\ o.subs => name # "subpack")
Begin == /\ pc = "choose"
         /\ \E o \in Options : Fits(o) /\ opt' = o
         /\ pc' = "start" /\ UNCHANGED << items, name, stored, result >>

Add(rank, list) == stored \o [ k \in 1..Len(list) |-> [rank |-> rank, f |-> list[k]] ]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o ToSeq(S \ {x})
F(i, kind) == [i |-> i, as |-> kind]          \* the file itself, or "srs" "txt" "srr" "sfv" made for it
Files2(S, kind) == { F(i, kind) : i \in S }
Files(S, kind) == ToSeq({ F(i, kind) : i \in S })
Go(p) == pc' = p /\ UNCHANGED << items, name, opt, result >>
End(r) == pc' = "done" /\ result' = r /\ stored' = << >> /\ UNCHANGED << items, name, opt >>

(* SRRs that are there are only replaced when the user says so; a set that cannot be read ends the scan of this release *)
Start == /\ pc = "start"
         /\ IF opt.have = "yes" /\ opt.answer = "n" THEN End("kept")
            ELSE IF opt.broken \notin {"", "packed"} THEN End("failed")
            ELSE IF opt.broken = "packed" /\ ~opt.comp /\ ~(opt.subs /\ opt.verify) THEN End("failed")     \* compressed volumes only when allowed
            ELSE Go("nfo") /\ stored' = stored

Nfo == /\ pc = "nfo" /\ Go("m3u")
       /\ stored' = Add(1, Files({ i \in Of("nfo") : Item(i).word \notin {"site", "nonfo"} }, "file"))
M3u == pc = "m3u" /\ Go("proof") /\ stored' = Add(2, Files(Of("m3u"), "file"))

(* other files of which the name starts the same *)
Alike == Of("set") \cup Of("track") \cup ({"nfo", "m3u"} \cap items)
Discs == {"disc1", "disc2", "disccrc"}
SameGroup == Alike \ ({"cd1", "cd2"} \cup Discs)      \* their names do not end on the group
Image(i) ==
   LET x == Item(i)
   IN IF x.where \in {"Proof", "Sample", "Covers", "Screenshots", "Compare"} \/ x.word = "proof" THEN TRUE
      ELSE IF x.word \in {"space", "folder", "albumart"} THEN FALSE
      ELSE opt.more \/ x.word = "zeros" \/ (x.big /\ x.word \in {"like", "likecap"} /\ Alike # {}) \/ (x.big /\ x.word \in {"like", "likecap", "group"} /\ SameGroup # {})
Proof == /\ pc = "proof" /\ Go("log")
         /\ stored' = Add(3, Files({ i \in Of("image") : Image(i) } \cup { i \in Of("rar") \cup Of("proofset") : Item(i).where = "Proof" /\ Item(i).word = "image" }, "file"))
Log == pc = "log" /\ Go("cue") /\ stored' = Add(4, Files({ i \in Of("log") : Item(i).word = "" }, "file"))
Cue == pc = "cue" /\ Go("samples") /\ stored' = Add(5, Files(Of("cue"), "file"))

(* an SRS or the reason why there is none, for each sample and track; nothing for empty files *)
Media == Of("sample") \cup Of("track") \cup Of("mvideo")
Samples == /\ pc = "samples" /\ Go("srs")
           /\ stored' = IF opt.nosrs THEN stored
                        ELSE Add(6, ToSeq(Files2({"rarvob"} \cap items, "srr") \cup { F(i, "srs") : i \in { j \in Media : Item(j).word \in {"ok", "crc"} } }
                                           \cup { F(i, "txt") : i \in { j \in Media : Item(j).word = "bad" } }))
(* samples with the same name but for the extension: the SRS has the extension too *)
Twins(i) == \/ i \in {"smp", "twin"} /\ {"smp", "twin"} \subseteq items
            \/ i \in {"smp2", "badtwin"} /\ {"smp2", "badtwin"} \subseteq items
Taken(i) == ~opt.nosrs /\ Item(i).word \in items /\ ~Twins(Item(i).word)      \* an SRS with this name has been made
Srs == /\ pc = "srs" /\ Go("fix")
       /\ stored' = Add(7, Files({ i \in Of("srs") : ~Taken(i) }, "file"))

(* Subtitle sets belong to the release itself only for a release of subtitles and folders with fixes only to a release *)
(* that is a fix; other folders with subtitles stay apart.                                                             *)
MainSub(i) == (name = "subpack" /\ Item(i).where = "") \/ (name = "fix" /\ i = "fixdir")
Apart == { i \in Of("subs") : ~MainSub(i) }
MainSets == Of("set") \cup { i \in Of("subs") : MainSub(i) }
MainSfvs == MainSets \cup Of("mvideo")
Fix == /\ pc = "fix" /\ Go("subs")
       /\ stored' = IF name = "fix" /\ Cardinality(MainSfvs) = 1 /\ ~Music THEN Add(8, Files(MainSets, "file")) ELSE stored
Subs == /\ pc = "subs" /\ Go("sfv")
        /\ stored' = IF opt.subs THEN Add(9, Files(Apart \cup (IF name = "subpack" THEN MainSets ELSE {}), "srr")) ELSE stored
Sfv == /\ pc = "sfv" /\ Go("order")
       /\ stored' = stored \o [ k \in 1..Len(Files(Apart \cup Of("proofset"), "sfv")) |-> [rank |-> 10, f |-> Files(Apart \cup Of("proofset"), "sfv")[k]] ]
                           \o [ k \in 1..Len(Files(MainSfvs, "sfv")) |-> [rank |-> 11, f |-> Files(MainSfvs, "sfv")[k]] ]
                           \o [ k \in 1..Len(Files(Discs \cap items, "sfv")) |-> [rank |-> 11, f |-> Files(Discs \cap items, "sfv")[k]] ]
                           \o (IF Of("track") \ Discs # {} THEN << [rank |-> 11, f |-> F("music", "sfv")] >> ELSE << >>)

(* SRRs and volumes go above their SFV: same rank as it *)
SfvRank(i) == IF i \in Apart \cup Of("proofset") THEN 10 ELSE 11
Above(e) == e.f.i \in Apart \cup Of("proofset") \cup MainSets /\ e.f.as \in {"srr", "file"}
IsNfo(i) == IF i = "music" THEN FALSE ELSE Item(i).what = "nfo"
Order == /\ pc = "order" /\ Go("skip")
         /\ stored' = IF Music /\ ~opt.nosrs
                      THEN [ k \in 1..Len(stored) |-> [stored[k] EXCEPT !.rank = IF IsNfo(stored[k].f.i) THEN 0 ELSE 1] ]
                      ELSE [ k \in 1..Len(stored) |-> IF Above(stored[k]) THEN [stored[k] EXCEPT !.rank = SfvRank(stored[k].f.i)] ELSE stored[k] ]
Skipped(e) == (e.f.i = opt.skip \/ e.f.i = opt.regex) /\ e.f.as = "file"
(* tracks of which the checksum is not that of the SFV are left out *)
Wrong(e) == e.f.as = "srs" /\ e.f.i \in items /\ Item(e.f.i).word = "crc"
Skip == /\ pc = "skip"
        /\ stored' = SelectSeq(stored, LAMBDA e : ~Skipped(e) /\ ~Wrong(e))
        /\ result' = "made" /\ pc' = "done" /\ UNCHANGED << items, name, opt >>
Step == Choose \/ Begin \/ Start \/ Nfo \/ M3u \/ Proof \/ Log \/ Cue \/ Samples \/ Srs \/ Fix \/ Subs \/ Sfv \/ Order \/ Skip
Spec == Init /\ [][Step]_vars

Made == pc = "done" /\ result = "made"
Is(k, f) == stored[k].f = f
In(f) == \E k \in 1..Len(stored) : Is(k, f)
(* nothing twice *)
Once == \A j, k \in 1..Len(stored) : Is(j, stored[k].f) => j = k
(* each sample is answered for: an SRS or the error, unless it is empty, has the wrong checksum or there are to be none *)
Answered == Made /\ ~opt.nosrs => \A i \in Media : Item(i).word \in {"ok", "bad"} => In(F(i, "srs")) \/ In(F(i, "txt"))
(* a track is not judged by the checksum of one with the same name on another disc *)
OwnSfv == Made /\ ~opt.nosrs => \A i \in Discs \cap items : In(F(i, "srs")) <=> Item(i).word = "ok"
(* all SFVs, and the main ones after everything else but what goes above them *)
Sfvs == Made => /\ \A i \in Apart \cup Of("proofset") \cup MainSfvs : In(F(i, "sfv"))
                /\ (~Music => \A j, k \in 1..Len(stored) : (stored[j].f.as = "sfv" /\ stored[j].f.i \in MainSfvs /\ stored[k].rank > stored[j].rank) => FALSE)
(* without exclusions no nfo, m3u or cue sheet of the release is missing *)
Kept == Made => \A i \in Of("nfo") \cup Of("m3u") \cup Of("cue") : Item(i).word = "" /\ opt.skip # i /\ opt.regex # i => In(F(i, "file"))
NoOthers == Made => \A i \in Of("none") \cup Of("video") : \A a \in {"file", "srs", "txt", "srr", "sfv"} : ~In(F(i, a))
Excluded == Made => \A i \in {opt.skip, opt.regex} : ~In(F(i, "file"))
NothingMade == (pc = "done" /\ result # "made") => stored = << >>
(* more images with the option, never less *)
Proofs == Made => \A i \in Of("image") : Item(i).where = "Proof" /\ opt.skip # i /\ opt.regex # i => In(F(i, "file"))

Emit == IF pc = "done"
        THEN PrintT("B|" \o ToJson([items |-> items, name |-> name, opt |-> opt, stored |-> stored, result |-> result, music |-> Music /\ ~opt.nosrs, main |-> MainSets]))
        ELSE TRUE
=============================================================================
