------------------------------- MODULE Scan -------------------------------
(* Finding the releases below a folder.  A tree of folders is built one folder *)
(* at a time; then the walk goes over it, parents before children and in the  *)
(* order of the names, and reports releases.  Nothing below a release is one. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,      \* sequence of names, in alphabetical order
          Kinds,      \* what a name looks like: "rel" "plain" (no hyphen) "disc" "discname" (a disc with a longer name) "side" "space"
          Contents,   \* the sets of files a folder can have
          MaxFolders, MaxMusic

VARIABLES dirs, pc, todo, found
vars == << dirs, pc, todo, found >>

N == 1..Len(dirs)
Kids(d) == { k \in N : dirs[k].up = d }
Root == 1
Kind(d) == IF d = Root THEN "rel" ELSE Kinds[dirs[d].name]
Init == /\ \E c \in Contents : dirs = << [up |-> 0, name |-> 0, files |-> c] >>
        /\ pc = "build" /\ todo = << >> /\ found = << >>

RECURSIVE Depth(_)
Depth(d) == IF d = Root THEN 0 ELSE 1 + Depth(dirs[d].up)
Folder == /\ pc = "build" /\ Len(dirs) < MaxFolders
          /\ \E u \in N, n \in 1..Len(Names), c \in Contents :
                /\ Depth(u) < 3
                /\ \A k \in Kids(u) : dirs[k].name < n         \* each tree once
                /\ \A k \in N : dirs[k].up <= u
                /\ dirs' = Append(dirs, [up |-> u, name |-> n, files |-> c])
          /\ UNCHANGED << pc, todo, found >>
Begin == pc = "build" /\ pc' = "walk" /\ todo' = << Root >> /\ UNCHANGED << dirs, found >>

(* -- what is a release ------------------------------------------------------------------------------- *)
Sfv(d) == dirs[d].files \cap {"sfv", "badsfv"} # {}
Direct(d) == Sfv(d) \/ "nfo" \in dirs[d].files                (* not the NFO of a site *)
Empty(d) == dirs[d].files = {} /\ Kids(d) = {}
NoHyphen(d) == Kind(d) \in {"plain", "side"}
(* discs with names of their own and an SFV in each of them *)
OldMusic(d) == /\ Cardinality(Kids(d)) \in 2..MaxMusic
               /\ \A k \in Kids(d) : (NoHyphen(k) \/ Kind(k) = "discname") /\ Sfv(k)
Candidate(d) == /\ Kind(d) \notin {"disc", "side"}
                /\ Direct(d) \/ (\E k \in Kids(d) : Kind(k) = "disc" /\ Sfv(k)) \/ OldMusic(d)
(* a lone NFO beside nothing but releases is that of a pack, except when they are the discs of one release *)
RECURSIVE Release(_)
LoneNfo(d) == Cardinality(dirs[d].files) = 1 /\ dirs[d].files \subseteq {"nfo", "imdb"}
Pack(d) == Kids(d) # {} /\ \A k \in Kids(d) : Empty(k) \/ Release(k)
Discs(d) == Direct(d) /\ Cardinality(Kids(d)) \in 2..MaxMusic /\ \A k \in Kids(d) : Kind(k) = "plain" /\ Sfv(k)
Release(d) == /\ Candidate(d) /\ Kind(d) # "space"
              /\ (LoneNfo(d) /\ Pack(d) => Discs(d))

RECURSIVE Under(_, _)
Under(a, d) == IF d = Root THEN FALSE ELSE dirs[d].up = a \/ Under(a, dirs[d].up)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >>
             ELSE LET x == CHOOSE x \in S : \A y \in S : dirs[x].name <= dirs[y].name
                  IN << x >> \o Sorted(S \ {x})
Visit == /\ pc = "walk" /\ todo # << >>
         /\ LET d == Head(todo)
            IN IF Release(d) THEN found' = Append(found, d) /\ todo' = Tail(todo)
               ELSE found' = found /\ todo' = Sorted(Kids(d)) \o Tail(todo)
         /\ UNCHANGED << dirs, pc >>
Finish == pc = "walk" /\ todo = << >> /\ pc' = "done" /\ UNCHANGED << dirs, todo, found >>
Next == Folder \/ Begin \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars

Found == { found[k] : k \in 1..Len(found) }
NotNested == \A a, b \in Found : ~Under(a, b)
Complete == pc = "done" => \A d \in N : Release(d) => d \in Found \/ \E a \in Found : Under(a, d)
OnlyReleases == \A d \in Found : Release(d) /\ Kind(d) \notin {"disc", "side", "space"}
OnceEach == \A j, k \in 1..Len(found) : found[j] = found[k] => j = k
(* no SFV is forgotten, unless in a folder that can be no release by its name or in one that is a pack of releases *)
NoSfvLost == pc = "done" => \A d \in N : Sfv(d) /\ Kind(d) \notin {"disc", "side", "space"} => d \in Found \/ \E a \in Found : Under(a, d) \/ a = d

(* creating fails for SFVs that have no files, except those of subtitles *)
SubsName == IF \E i \in 1..Len(Names) : Names[i] = "Subs" THEN CHOOSE i \in 1..Len(Names) : Names[i] = "Subs" ELSE 0
Fails(d) == \E k \in N : (k = d \/ Under(d, k)) /\ "badsfv" \in dirs[k].files /\ (k = Root \/ dirs[k].name # SubsName)
HasNfo(d) == dirs[d].files \cap {"nfo", "imdb"} # {}
SampleName == IF \E i \in 1..Len(Names) : Names[i] = "Sample" THEN CHOOSE i \in 1..Len(Names) : Names[i] = "Sample" ELSE 0
HasSample(d) == \E k \in Kids(d) : dirs[k].name = SampleName /\ "vid" \in dirs[k].files
Where(S) == SelectSeq(found, LAMBDA d : d \in S)
Emit == IF pc = "done"
        THEN PrintT("B|" \o ToJson([dirs |-> dirs, found |-> found, nonfo |-> Where({ d \in Found : ~HasNfo(d) }), nosample |-> Where({ d \in Found : ~HasSample(d) }),
                                    fails |-> Where({ d \in Found : Fails(d) })]))
        ELSE TRUE
=============================================================================
