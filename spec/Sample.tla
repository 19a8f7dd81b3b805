------------------------------- MODULE Sample -------------------------------
(***************************************************************************)
(* Rebuilding a sample from the main video.  Every track of the main video *)
(* is a sequence of frames; the sample has the frames [a, b) of each track.*)
(* The SRS keeps the beginning of each track (its signature) and the       *)
(* number of frames.  The search walks once over the interleaved main      *)
(* video with one automaton per track, the extraction takes the frames     *)
(* from the place found, and the checksum decides.                         *)
(*                                                                         *)
(* The main video used for the rebuild can differ from the one the sample  *)
(* was cut from (mutation).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Pats,      \* set of tuples (one sequence of symbols per track)
    SigFs,     \* frames in a signature
    Muts,      \* kinds of mutation of the main video
    Inters,    \* interleavings of the main video
    Modes      \* "search" or "stored": offsets in the SRS, of the unmutated main video

VARIABLES cfg, phase, pos, have, off, mlen, done, verdict
vars == <<cfg, phase, pos, have, off, mlen, done, verdict>>

Tracks == DOMAIN cfg.pat
Orig(t) == cfg.pat[t]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Mutate(s, m) ==
    CASE m.k = "none"  -> s
      [] m.k = "drop"  -> Drop(s, m.i)
      [] m.k = "alter" -> [s EXCEPT ![m.i] = 100 + s[m.i]]
      [] m.k = "trunc" -> SubSeq(s, 1, m.i - 1)
      [] m.k = "dup"   -> SubSeq(s, 1, m.i) \o SubSeq(s, m.i, Len(s))
      [] m.k = "ins"   -> SubSeq(s, 1, m.i - 1) \o <<200>> \o SubSeq(s, m.i, Len(s))
      [] m.k = "gone"  -> <<>>
Main == [t \in Tracks |-> IF cfg.mut.t = t THEN Mutate(Orig(t), cfg.mut) ELSE Orig(t)]
Sample == [t \in Tracks |-> SubSeq(Orig(t), cfg.cut[t][1], cfg.cut[t][2] - 1)]
Min(a, b) == IF a < b THEN a ELSE b
Sig(t) == SubSeq(Sample[t], 1, Min(cfg.sigf, Len(Sample[t])))

(*-- the order of the frames in the main video ----------------------------*)
RECURSIVE Alt(_, _)
Alt(i, n) == IF i > n THEN <<>>
             ELSE (LET S == {t \in Tracks : i <= Len(Main[t])}
                       Row[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET t == CHOOSE x \in T : \A y \in T : x <= y
                                                                      IN <<<<t, i>>>> \o Row[T \ {t}]
                   IN Row[S]) \o Alt(i + 1, n)
RECURSIVE Blocks(_, _)
Blocks(T, up) == IF T = {} THEN <<>>
             ELSE LET t == CHOOSE x \in T : \A y \in T : IF up THEN x <= y ELSE x >= y
                  IN [i \in 1 .. Len(Main[t]) |-> <<t, i>>] \o Blocks(T \ {t}, up)
MaxLen == LET L == {Len(Main[t]) : t \in Tracks} IN CHOOSE x \in L : \A y \in L : x >= y
File == CASE cfg.inter = "alt" -> Alt(1, MaxLen)
          [] cfg.inter = "blocks" -> Blocks(Tracks, TRUE)
          [] cfg.inter = "rev" -> Blocks(Tracks, FALSE)

(* starts of the signature in the main video m *)
OccIn(m, t) == {p \in 1 .. Len(m) : p + Len(Sig(t)) - 1 <= Len(m) /\ SubSeq(m, p, p + Len(Sig(t)) - 1) = Sig(t)}
(* a partial copy of the beginning that runs into the one at p *)
RunIn(m, t, p) == \E j \in 1 .. p - 1 : p - j + 1 <= Len(Sig(t)) /\ SubSeq(m, j, p) = SubSeq(Sig(t), 1, p - j + 1)
Findable(m, t) == Cardinality(OccIn(m, t)) = 1 /\ \A p \in OccIn(m, t) : ~RunIn(m, t, p)

Cuts(n) == {<<a, b>> \in (1 .. n) \X (1 .. n + 1) : a <= b}

Init ==
    /\ \E p \in Pats : \E sf \in SigFs : \E i \in Inters : \E m \in Modes :
       \E mu \in {[k |-> "none", t |-> 0, i |-> 0]} \cup
                 {[k |-> k, t |-> t, i |-> j] : k \in Muts \ {"none"}, t \in DOMAIN p, j \in 1 .. Len(p[1])} :
       \E c \in {f \in [DOMAIN p -> Cuts(Len(p[1]))] : \A t \in DOMAIN p : f[t] \in Cuts(Len(p[t]))} :
          /\ mu.t = 0 \/ (IF mu.t = 0 THEN TRUE ELSE mu.i <= Len(p[mu.t]) /\ (mu.k = "gone" => mu.i = 1))
          /\ \E t \in DOMAIN p : c[t][1] < c[t][2]
          /\ \A t \in DOMAIN p : c[t][1] = c[t][2] => c[t][1] = 1
          /\ cfg = [pat |-> p, sigf |-> sf, inter |-> i, mut |-> mu, cut |-> c, mode |-> m]
    \* stored offsets come from a search in the original main video
    /\ cfg.mode = "stored" => \A t \in DOMAIN cfg.pat : (cfg.cut[t][1] < cfg.cut[t][2] => Findable(Orig(t), t))
    /\ phase = "find" /\ pos = 1 /\ done = FALSE /\ verdict = "?"
    /\ have = [t \in DOMAIN cfg.pat |-> 0]
    /\ mlen = [t \in DOMAIN cfg.pat |-> 0]
    /\ off = [t \in DOMAIN cfg.pat |-> IF cfg.mode = "stored" /\ cfg.cut[t][1] < cfg.cut[t][2] THEN cfg.cut[t][1] ELSE 0]

DLen(t) == Len(Sample[t])

Step ==
    /\ phase = "find" /\ cfg.mode = "search" /\ pos <= Len(File) /\ ~done
    /\ pos' = pos + 1
    /\ LET t == File[pos][1]
           i == File[pos][2]
           sym == Main[t][i]
           s == Sig(t)
       IN IF s = <<>> THEN UNCHANGED <<have, off, mlen, done>>
          ELSE IF off[t] = 0 \/ have[t] < Len(s)
          THEN LET next == IF have[t] > 0 THEN (IF sym = s[have[t] + 1] THEN "go" ELSE "fresh") ELSE "fresh"
               IN CASE next = "go" -> /\ have' = [have EXCEPT ![t] = @ + 1]
                                      /\ mlen' = [mlen EXCEPT ![t] = Min(@ + 1, DLen(t))]
                                      /\ UNCHANGED <<off, done>>
                    [] next = "fresh" /\ sym = s[1] ->
                                      /\ have' = [have EXCEPT ![t] = 1]
                                      /\ mlen' = [mlen EXCEPT ![t] = 1]
                                      /\ off' = [off EXCEPT ![t] = i] /\ UNCHANGED done
                    [] next = "fresh" /\ sym # s[1] ->
                                      /\ have' = [have EXCEPT ![t] = 0]
                                      /\ mlen' = [mlen EXCEPT ![t] = 0]
                                      /\ off' = [off EXCEPT ![t] = 0] /\ UNCHANGED done
          ELSE IF mlen[t] < DLen(t)
          THEN /\ mlen' = [mlen EXCEPT ![t] = @ + 1]
               /\ done' = (\A x \in Tracks : mlen'[x] >= DLen(x))
               /\ UNCHANGED <<have, off>>
          ELSE UNCHANGED <<have, off, mlen, done>>
    /\ UNCHANGED <<cfg, phase, verdict>>

Full == {t \in Tracks : DLen(t) > 0}
Take(t) == SubSeq(Main[t], off[t], Min(Len(Main[t]), off[t] + DLen(t) - 1))
Rebuild ==
    /\ phase = "find" /\ (done \/ pos > Len(File) \/ cfg.mode = "stored")
    /\ phase' = "end"
    /\ verdict' = IF \E t \in Full : off[t] = 0 THEN "notfound"
                  ELSE IF \E t \in Full : Len(Take(t)) < DLen(t) THEN "short"
                  ELSE IF \E t \in Full : Take(t) # Sample[t] THEN "mismatch" ELSE "ok"
    /\ UNCHANGED <<cfg, pos, have, off, mlen, done>>

Next == Step \/ Rebuild
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*-- what has to hold ------------------------------------------------------*)
There(t) == \E p \in OccIn(Main[t], t) : SubSeq(Main[t], p, Min(Len(Main[t]), p + DLen(t) - 1)) = Sample[t]
Locatable == \A t \in Full : Findable(Main[t], t) /\ There(t)
\* (anything else moves the bytes of the file)
SameMain == cfg.mut.k \in {"none", "alter"} /\ \A t \in Full : SubSeq(Main[t], cfg.cut[t][1], Min(Len(Main[t]), cfg.cut[t][1] + DLen(t) - 1)) = Sample[t]
Promised == IF cfg.mode = "search" THEN Locatable ELSE SameMain

Sound == verdict = "ok" => \A t \in Full : off[t] > 0 /\ Take(t) = Sample[t]
Complete == (phase = "end" /\ Promised) => verdict = "ok"
OffsetTrue == \A t \in Tracks : (off[t] > 0 /\ have[t] > 0) => SubSeq(Main[t], off[t], off[t] + have[t] - 1) = SubSeq(Sig(t), 1, have[t])
DoneMeansComplete == done => \A t \in Full : have[t] = Len(Sig(t)) /\ mlen[t] = DLen(t)
Ends == <>(phase = "end")

Emit == (phase = "end") => PrintT("B|" \o ToJson([pat |-> cfg.pat, cut |-> [t \in Tracks |-> cfg.cut[t]], sigf |-> cfg.sigf, mut |-> cfg.mut,
             inter |-> cfg.inter, mode |-> cfg.mode, verdict |-> verdict, promised |-> Promised, findorig |-> \A t \in Full : Findable(Orig(t), t)]))
=============================================================================
