------------------------------ MODULE LoaderMC ------------------------------
(***************************************************************************)
(* The walk through the directories asked for: a queue of directories and  *)
(* a queue of files, a directory being listed when it is taken from its    *)
(* queue (files first), against Loader!SelectedStreams - for every small   *)
(* tree made from a catalogue of entries, every list of directories asked  *)
(* for, with and without recursion.                                        *)
(***************************************************************************)
EXTENDS Loader, Json

CONSTANTS Wrong, Emit, Many
VARIABLES tree, tops, rec, todo, dirs, files, loaded
vars == <<tree, tops, rec, todo, dirs, files, loaded>>

Ext == ".x"
En(d, n, k, o) == [dir |-> d, name |-> n, kind |-> k, ok |-> o]
T == <<"t">>
TD == <<"t", "d">>
TH == <<"t", ".d">>
TDE == <<"t", "d", "e">>
Catalogue == {En(T, "a.x", "file", TRUE), En(T, "a.x", "file", FALSE), En(T, ".a.x", "file", TRUE), En(T, "b.xy", "file", TRUE),
              En(T, "c.x", "link", TRUE), En(T, "d", "dir", TRUE), En(T, "d", "dir", FALSE), En(T, ".d", "dir", TRUE),
              En(TD, "a.x", "file", TRUE), En(TD, "b.x", "file", FALSE), En(TD, "z.x", "file", TRUE), En(TD, "e", "dir", TRUE),
              En(TH, "a.x", "file", TRUE), En(TDE, "a.x", "file", TRUE)}
             \cup (IF Many THEN {En(TD, "e", "dir", FALSE), En(T, "q", "dir", TRUE), En(<<"t", "q">>, "a.x", "file", TRUE), En(TDE, ".x", "file", TRUE)} ELSE {})
PathOf(e) == Append(e.dir, e.name)
Fine(S) == /\ \A e \in S : e.dir = T \/ \E p \in S : p.kind = "dir" /\ PathOf(p) = e.dir
           /\ \A e, f \in S : e # f => PathOf(e) # PathOf(f)
Asked == {<<T>>, <<T, T>>, <<T, TD>>, <<<<"missing">>, T>>}

(* a stream is named by its path *)
RECURSIVE JoinWith(_)
JoinWith(p) == IF p = << >> THEN "" ELSE "/" \o Head(p) \o JoinWith(Tail(p))
Streams(es) == [i \in 1..Len(es) |-> es[i] @@ [stream |-> JoinWith(PathOf(es[i]))]]

Init == /\ tree \in {S \in SUBSET Catalogue : Fine(S)} /\ tops \in Asked /\ rec \in BOOLEAN
        /\ todo = tops /\ dirs = << >> /\ files = << >> /\ loaded = << >>

(* asking the system *)
Exists(d) == d = T \/ \E e \in tree : e.kind = "dir" /\ PathOf(e) = d
CanList(d) == Exists(d) /\ \A e \in tree : (e.kind = "dir" /\ IsPrefixSeq(PathOf(e), d)) => e.ok
In(d, kinds) == LET S == {e \in tree : e.dir = d /\ e.kind \in kinds /\ (~Hidden(e.name) \/ (Wrong = "hidden directories" /\ e.kind = "dir"))} IN
                SetToSeq(S)
Paths(es) == [i \in 1..Len(es) |-> PathOf(es[i])]
FileKinds == IF Wrong = "links" THEN {"file", "link"} ELSE {"file"}
List(d) == /\ files' = files \o In(d, FileKinds)
           /\ dirs' = dirs \o Paths(In(d, {"dir"}))

Start == /\ todo # << >> /\ dirs = << >> /\ files = << >>
         /\ todo' = Tail(todo)
         /\ IF CanList(Head(todo)) THEN List(Head(todo)) ELSE UNCHANGED <<dirs, files>>
         /\ UNCHANGED <<tree, tops, rec, loaded>>
AFile == /\ files # << >>
         /\ LET e == Head(files)
                fits == IF Wrong = "ending anywhere" THEN \E i \in 1..(Len(e.name) - 1) : SubSeq(e.name, i, i + 1) = Ext ELSE HasSuffix("/" \o e.name, Ext)
            IN IF fits /\ ~e.ok /\ Wrong = "unreadable file ends it"
               THEN files' = << >> /\ dirs' = << >> /\ UNCHANGED loaded
               ELSE /\ files' = Tail(files)
                    /\ loaded' = IF fits /\ e.ok THEN Append(loaded, JoinWith(PathOf(e))) ELSE loaded
                    /\ UNCHANGED dirs
         /\ UNCHANGED <<tree, tops, rec, todo>>
ADir == /\ files = << >> /\ dirs # << >>
        /\ IF ~rec \/ CanList(Head(dirs)) = FALSE
           THEN /\ dirs' = IF rec /\ Wrong = "unreadable directory ends it" THEN << >> ELSE Tail(dirs)
                /\ UNCHANGED files
           ELSE LET d == Head(dirs) IN
                /\ files' = In(d, FileKinds)
                /\ dirs' = Tail(dirs) \o Paths(In(d, {"dir"}))
        /\ UNCHANGED <<tree, tops, rec, todo, loaded>>
Next == Start \/ AFile \/ ADir
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Done == todo = << >> /\ dirs = << >> /\ files = << >>
HowOften(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
JustThose == Done => LET want == SelectedStreams(Streams(SetToSeq(tree)), SelectSeq(tops, LAMBDA d : Exists(d)), Ext, rec) IN
                     /\ Len(want) = Len(loaded)
                     /\ \A i \in 1..Len(want) : HowOften(want, want[i]) = HowOften(loaded, want[i])
EmitAll == (Emit /\ Done) => PrintT("GEN " \o ToJson([tree |-> SetToSeq(tree), tops |-> tops, rec |-> rec]))
=============================================================================
