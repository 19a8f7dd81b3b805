------------------------------ MODULE VolNames ------------------------------
(* Names of RAR volumes.  A name is a base and an extension that is written   *)
(* down symbol by symbol; the successor works like an odometer on the symbols *)
(* and has to agree with the name of the next index.                          *)
(*   old  : .rar .r00 .. .r99 .s00 .. .z99                                     *)
(*   new  : .part1.rar, with W digits                                          *)
(*   num  : .001 .. .999        num0 : .000 .. .999                            *)
(* The listing part gives the meaning of "first volume" for lists of names.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,          \* "chain" or "list"
          Scheme,        \* chain: old, new, num, num0
          W,             \* chain: digits of a new style name
          Last,          \* chain: walk up to this index (0 = as far as the scheme goes)
          Bases,         \* list: volume sets, functions [sc |-> ..., w |-> ...] are in SetOf
          SetOf,         \* list: base -> << scheme, digits, number of volumes in the universe >>
          Others,        \* list: files that are no RAR volume
          MaxLen         \* list: longest list

Digits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
Letters == << "r", "s", "t", "u", "v", "w", "x", "y", "z" >>
Pow(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE IF n = 3 THEN 1000 ELSE 10000

RECURSIVE Dec(_, _)      \* n with w digits
Dec(n, w) == IF w = 0 THEN << >> ELSE Append(Dec(n \div 10, w - 1), Digits[(n % 10) + 1])

\* how far a scheme goes
Cap(sc, w) == CASE sc = "old" -> 1 + 900
                [] sc = "new" -> Pow(w) - 1
                [] sc = "num" -> 999
                [] sc = "num0" -> 1000

Rar == << ".", "r", "a", "r" >>
Name(sc, w, i) ==        \* i from 1
  CASE sc = "old" -> IF i = 1 THEN Rar
                     ELSE << ".", Letters[((i - 2) \div 100) + 1] >> \o Dec((i - 2) % 100, 2)
    [] sc = "new" -> << ".", "p", "a", "r", "t" >> \o Dec(i, w) \o Rar
    [] sc = "num" -> << "." >> \o Dec(i, 3)
    [] sc = "num0" -> << "." >> \o Dec(i - 1, 3)

(* the odometer *)
NextSym(c) == LET S == Digits \o Letters
                  k == CHOOSE k \in 1..Len(S) : S[k] = c
              IN S[k + 1]
RECURSIVE Inc(_)
Inc(s) == LET n == Len(s)
          IN IF s[n] = "9" THEN Append(Inc(SubSeq(s, 1, n - 1)), "0")
             ELSE Append(SubSeq(s, 1, n - 1), NextSym(s[n]))
EndsRar(s) == Len(s) >= 4 /\ SubSeq(s, Len(s) - 3, Len(s)) = Rar
IsNew(s) == Len(s) > 9 /\ SubSeq(s, 1, 5) = << ".", "p", "a", "r", "t" >> /\ EndsRar(s)
Next_(s) == IF IsNew(s) THEN Inc(SubSeq(s, 1, Len(s) - 4)) \o Rar
            ELSE IF s = Rar THEN << ".", "r", "0", "0" >>
            ELSE Inc(s)

-----------------------------------------------------------------------------
VARIABLES idx, cur, list, done
vars == << idx, cur, list, done >>

(* listing: a file is << base, index >>, others are << other, 0 >> *)
Vol(b) == { << b, i >> : i \in 1..SetOf[b][3] }
Files == UNION { Vol(b) : b \in Bases } \cup { << o, 0 >> : o \in Others }
Range(s) == { s[i] : i \in 1..Len(s) }
NameOf(f) == IF f[2] = 0 THEN << >> ELSE Name(SetOf[f[1]][1], SetOf[f[1]][2], f[2])
(* What can be told from the names alone: a .rar that is no .partN, part 1, .000 or else .001.           *)
(* Volumes of a set "amb" are named in the old style over a base that ends like a later new style part    *)
(* (name.part2.rar, name.part2.r00): that is only seen when nothing else starts a set.                   *)
LooksFirst(f, S) ==
  IF f[2] = 0 THEN FALSE
  ELSE LET sc == SetOf[f[1]][1]
       IN CASE sc = "old" -> f[2] = 1
            [] sc = "new" -> f[2] = 1
            [] sc = "num" -> f[2] = 1
            [] sc = "num0" -> f[2] = 1 \/ (f[2] = 2 /\ << f[1], 1 >> \notin S)
            [] sc = "amb" -> FALSE
DotRar(f) == f[2] # 0 /\ (SetOf[f[1]][1] = "new" \/ (SetOf[f[1]][1] \in {"old", "amb"} /\ f[2] = 1))
Firsts(S) ==
  LET plain == { f \in S : LooksFirst(f, S) }
      amb == { f \in S : f[2] = 1 /\ SetOf[f[1]][1] = "amb" /\ << f[1], 2 >> \in S }
  IN IF plain # {} THEN plain
     ELSE IF amb # {} THEN amb
     ELSE IF Cardinality(S) = 1 THEN { f \in S : DotRar(f) }      \* a single .rar with a weird name
     ELSE {}
FirstList(l) == SelectSeq(l, LAMBDA f : f \in Firsts(Range(l)))

-----------------------------------------------------------------------------
Init == /\ idx = 1 /\ list = << >> /\ done = FALSE
        /\ cur = IF Mode = "chain" THEN Name(Scheme, W, 1) ELSE << >>
Limit == IF Last = 0 \/ Last > Cap(Scheme, W) THEN Cap(Scheme, W) ELSE Last
Walk == /\ Mode = "chain" /\ ~done /\ idx < Limit
        /\ idx' = idx + 1 /\ cur' = Next_(cur) /\ UNCHANGED << list, done >>
Add == /\ Mode = "list" /\ ~done /\ Len(list) < MaxLen
       /\ \E f \in Files \ Range(list) : list' = Append(list, f)
       /\ UNCHANGED << idx, cur, done >>
Finish == /\ Mode = "list" /\ ~done /\ list # << >> /\ done' = TRUE /\ UNCHANGED << idx, cur, list >>
Step == Walk \/ Add \/ Finish
Spec == Init /\ [][Step]_vars

(* the odometer gives exactly the names of the scheme, and each of them once *)
Agree == Mode = "chain" => cur = Name(Scheme, W, idx)
Different == (Mode = "chain" /\ idx <= 120) => \A j \in 1..(idx - 1) : Name(Scheme, W, j) # cur
(* which volumes are first does not depend on the order of the list, and each set that has its first volume *)
(* counts once                                                                                              *)
Once == (Mode = "list" /\ list # << >>) =>
   LET S == Range(list)
       F == Firsts(S)
   IN /\ F \subseteq S
      /\ \A f \in F : \A g \in F : (f[1] = g[1]) => f = g
      /\ \A b \in Bases : (<< b, 1 >> \in S /\ SetOf[b][1] # "amb") =>
            ({ f \in F : f[1] = b } = { << b, 1 >> } \/ (Cardinality(S) = 1))
      /\ Range(FirstList(list)) = F

Emit == IF Mode = "chain"
        THEN PrintT("B|" \o ToJson([i |-> idx, n |-> cur]))
        ELSE IF done THEN PrintT("B|" \o ToJson([list |-> list, firsts |-> FirstList(list)]))
        ELSE TRUE
=============================================================================
