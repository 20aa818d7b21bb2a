------------------------------ MODULE SchemaMC ------------------------------
(***************************************************************************)
(* The streaming algorithm of the schema engine on every small term and    *)
(* every cutoff: a term is its tokens <<meaning, arity>> in pre-order; the *)
(* machine copies or skips tokens, keeping a stack of how many children    *)
(* are missing, and a second machine rebuilds the schema from what was     *)
(* copied.  Both are checked against cutting the tree, and what was copied *)
(* must tell schemata apart where it is used as a key.                     *)
(***************************************************************************)
EXTENDS Schema, Json

CONSTANTS N,        \* size of terms
          Depths,   \* cutoffs
          Key       \* "stream": only what was copied tells classes apart;
                    \* "both": together with the schema
VARIABLES term, D, pos, stack, out, phase
vars == <<term, D, pos, stack, out, phase>>

Nd(m, c) == [s |-> "c", m |-> m, lo |-> 0, hi |-> 0, c |-> c]
Labels == {"f#", "apply#"}
RECURSIVE Forests(_, _)          \* sequences of k terms with n nodes in total
RECURSIVE Trees(_)
Trees(n) == IF n = 1 THEN {Nd(m, << >>) : m \in Labels}
            ELSE {Nd(m, c) : m \in Labels, c \in UNION {Forests(k, n - 1) : k \in 1..(n - 1)}}
Forests(k, n) == IF k = 1 THEN {<<t>> : t \in Trees(n)}
                 ELSE UNION {{<<t>> \o rest : t \in Trees(j), rest \in Forests(k - 1, n - j)} : j \in 1..(n - k + 1)}
Terms == UNION {Trees(n) : n \in 1..N}

RECURSIVE Stream(_)
Stream(n) == <<[m |-> n.m, ar |-> Len(n.c)]>> \o FoldLeft(LAMBDA acc, x : acc \o Stream(x), << >>, n.c)
RECURSIVE StreamOfCut(_)
StreamOfCut(s) == IF s.hole THEN << >>
                  ELSE <<[m |-> s.m, ar |-> Len(s.c)]>> \o FoldLeft(LAMBDA acc, x : acc \o StreamOfCut(x), << >>, s.c)

----------------------------------------------------------------------------
(* the machine *)
Src == Stream(term)
IsAp(t) == t.m = "apply#"
RECURSIVE Completed(_)           \* one more child of the innermost open node is done
Completed(st) == IF st = << >> THEN st
                 ELSE LET n == Len(st) IN
                      IF st[n].left - 1 = 0 THEN Completed(SubSeq(st, 1, n - 1))
                      ELSE [st EXCEPT ![n] = [left |-> st[n].left - 1, first |-> FALSE]]
RECURSIVE SkipOne(_, _)
SkipOne(i, n) == IF n = 0 THEN i ELSE SkipOne(i + 1, n - 1 + Src[i].ar)

Init == /\ term \in Terms /\ D \in Depths
        /\ pos = 1 /\ stack = << >> /\ out = << >> /\ phase = "start"
Begin == /\ phase = "start"
         /\ IF D = 0 THEN phase' = "done" /\ UNCHANGED <<pos, stack, out>>
            ELSE /\ out' = <<Src[1]>> /\ pos' = 2
                 /\ stack' = IF Src[1].ar = 0 THEN << >> ELSE <<[left |-> Src[1].ar, first |-> IsAp(Src[1])]>>
                 /\ phase' = "run"
         /\ UNCHANGED <<term, D>>
Top == stack[Len(stack)]
Skip == /\ phase = "run" /\ stack # << >> /\ Len(stack) >= D /\ ~Top.first
        /\ pos' = SkipOne(pos, Top.left)
        /\ stack' = Completed(SubSeq(stack, 1, Len(stack) - 1))
        /\ UNCHANGED <<term, D, out, phase>>
Copy == /\ phase = "run" /\ stack # << >> /\ ~(Len(stack) >= D /\ ~Top.first)
        /\ out' = Append(out, Src[pos]) /\ pos' = pos + 1
        /\ stack' = IF Src[pos].ar = 0 THEN Completed(stack) ELSE Append(stack, [left |-> Src[pos].ar, first |-> IsAp(Src[pos])])
        /\ UNCHANGED <<term, D, phase>>
Finish == phase = "run" /\ stack = << >> /\ phase' = "done" /\ UNCHANGED <<term, D, pos, stack, out>>
Next == Begin \/ Skip \/ Copy \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* rebuilding: the schema of a stream, by reading it *)
RECURSIVE Rebuild(_, _, _, _)    \* [s, i]: schema of the node that comes at position i, and the next position
Rebuild(sq, i, level, isOp) ==
   IF level >= D /\ ~isOp THEN [s |-> Hole, i |-> i]
   ELSE LET RECURSIVE Kids(_, _, _)
            Kids(k, j, acc) == IF k > sq[i].ar THEN [s |-> [hole |-> FALSE, m |-> sq[i].m, c |-> acc], i |-> j]
                               ELSE LET r == Rebuild(sq, j, level + 1, k = 1 /\ IsAp(sq[i])) IN Kids(k + 1, r.i, Append(acc, r.s))
        IN Kids(1, i + 1, << >>)

Done == phase = "done"
ReadsAll == Done /\ D # 0 => pos = Len(Src) + 1
CopiesTheCut == Done => out = StreamOfCut(Cut(term, D))
RebuildsTheCut == Done => Rebuild(out, 1, 0, FALSE).s = Cut(term, D)

(* one cutoff for all formulae: what was copied tells them apart;          *)
(* a cutoff for each: it does not                                          *)
KeyOf(t, d) == <<StreamOfCut(Cut(t, d)), IF Key = "stream" THEN 0 ELSE SchemaTree(Cut(t, d))>>
TellsApart(T, depth(_)) == Cardinality({KeyOf(t, depth(t)) : t \in T}) = Cardinality({Cut(t, depth(t)) : t \in T})
                           /\ Cardinality({<<KeyOf(t, depth(t)), Cut(t, depth(t))>> : t \in T}) = Cardinality({KeyOf(t, depth(t)) : t \in T})
KeyTellsApart == \A d \in Depths : TellsApart(Terms, LAMBDA t : d)
RelKeyTellsApart == \A p \in {50, 100} : TellsApart(Terms, LAMBDA t : (p * TermDepth(t)) \div 100)
(* what is the same at one depth is the same at every smaller one *)
Coarser == \A d \in Depths \ {0} : Cardinality({<<Cut(t, d), Cut(t, d - 1)>> : t \in Terms}) = Cardinality({Cut(t, d) : t \in Terms})
(* these are about all terms at once: one state is enough *)
OneInit == term = Nd("f#", << >>) /\ D = 0 /\ pos = 1 /\ stack = << >> /\ out = << >> /\ phase = "all"
OneSpec == OneInit /\ [][FALSE]_vars
Emit == (phase = "start" /\ \A d \in Depths : D <= d) => PrintT("GEN " \o ToJson(Stream(term)))
=============================================================================
