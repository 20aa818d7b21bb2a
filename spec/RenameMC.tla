------------------------------ MODULE RenameMC ------------------------------
(***************************************************************************)
(* Renaming of identifiers on the way into an index and into a question.   *)
(* The machine puts the tokens of two expressions, one after the other,    *)
(* through a stack (children pushed last to first) and a table of the      *)
(* identifiers met so far, which is emptied before each expression.        *)
(*                                                                         *)
(* Checked for every pair of small expressions: what comes out for each is *)
(* its canonical form (Terms!Canon), and the two come out equal exactly    *)
(* when one is the other with its identifiers consistently renamed, i.e.   *)
(* when some one-to-one mapping of renameable identifiers carries every    *)
(* renameable place of the one to that of the other, and nothing else      *)
(* differs.                                                                *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANTS N,          \* size of expressions
          Leaf,       \* meanings of leaves
          Wrong,      \* "no" or a wrong machine
          Emit
VARIABLES pair, at, stack, table, out
vars == <<pair, at, stack, table, out>>

Nd(m, c) == [s |-> "c", m |-> m, lo |-> 0, hi |-> 0, c |-> c]
Leaves == {Nd(m, << >>) : m \in Leaf}
Inner == {"apply#", "list#", "ci#a"}
RECURSIVE Forests(_, _)
RECURSIVE Trees(_)
Trees(n) == IF n = 1 THEN Leaves
            ELSE {Nd(m, c) : m \in Inner, c \in UNION {Forests(k, n - 1) : k \in 1..(n - 1)}}
Forests(k, n) == IF k = 1 THEN {<<t>> : t \in Trees(n)}
                 ELSE UNION {{<<t>> \o rest : t \in Trees(j), rest \in Forests(k - 1, n - j)} : j \in 1..(n - k + 1)}
All == UNION {Trees(n) : n \in 1..N}
Skeleton(n) == [m |-> Len(PreOrder(n, "")), a |-> Len(n.c)]

(* every expression as the first of a pair; as the second, those of its    *)
(* shape (others cannot come out equal) and one of another                 *)
Init == /\ pair \in {p \in All \X All : IF Emit THEN p[1] = p[2] ELSE Skeleton(p[1]) = Skeleton(p[2])}
        /\ at = 1 /\ stack = <<[n |-> pair[1], op |-> FALSE]>> /\ table = << >> /\ out = << << >>, << >> >>

Known(m) == {i \in 1..Len(table) : table[i] = m}
Named(m) == IF Known(m) # {} THEN CHOOSE i \in Known(m) : TRUE ELSE Len(table) + 1
IsOp(e) == IF Wrong = "operators too" THEN FALSE ELSE e.op
Emitted(e) == IF Renameable(e.n, IsOp(e)) THEN "~" \o ToString(Named(e.n.m)) ELSE e.n.m
Kids(e) == [i \in 1..Len(e.n.c) |-> [n |-> e.n.c[i], op |-> IsApply(e.n) /\ i = 1]]
Top == stack[1]
Step_ == /\ stack # << >>
         /\ out' = [out EXCEPT ![at] = Append(@, [m |-> Emitted(Top), ar |-> Len(Top.n.c)])]
         /\ table' = IF Renameable(Top.n, IsOp(Top)) /\ (Known(Top.n.m) = {} \/ Wrong = "a name for each use") THEN Append(table, Top.n.m) ELSE table
         /\ stack' = IF Wrong = "breadth first" THEN Tail(stack) \o Kids(Top) ELSE Kids(Top) \o Tail(stack)
         /\ UNCHANGED <<pair, at>>
Second == /\ stack = << >> /\ at = 1
          /\ at' = 2 /\ stack' = <<[n |-> pair[2], op |-> FALSE]>>
          /\ table' = IF Wrong = "table kept" THEN table ELSE << >>
          /\ UNCHANGED <<pair, out>>
Next == Step_ \/ Second
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Done == stack = << >> /\ at = 2
Stream(n) == LET po == PreOrder(n, "") IN [i \in 1..Len(po) |-> [m |-> po[i][2].m, ar |-> Len(po[i][2].c)]]
IsCanonical == stack = << >> => \A i \in 1..at : out[i] = Stream(Canon(pair[i]))

(* places of an expression: <<meaning, number of children, renameable>> *)
RECURSIVE Places(_, _)
Places(n, op) == <<[m |-> n.m, ar |-> Len(n.c), re |-> Renameable(n, op)]>>
                 \o FoldLeft(LAMBDA acc, i : acc \o Places(n.c[i], IsApply(n) /\ i = 1), << >>, [i \in 1..Len(n.c) |-> i])
Consistent(p, q) ==
   /\ Len(p) = Len(q)
   /\ \A i \in 1..Len(p) : p[i].ar = q[i].ar /\ p[i].re = q[i].re /\ (~p[i].re => p[i].m = q[i].m)
   /\ \A i, j \in 1..Len(p) : p[i].re /\ p[j].re => ((p[i].m = p[j].m) <=> (q[i].m = q[j].m))
EqualAsMeant == Done => ((out[1] = out[2]) <=> Consistent(Places(pair[1], FALSE), Places(pair[2], FALSE)))

RECURSIVE RawTerm(_)
RawTerm(n) == LET k == CHOOSE k \in 1..Len(n.m) : Ch(n.m, k) = "#" IN
              [t |-> SubSeq(n.m, 1, k - 1), x |-> SubSeq(n.m, k + 1, Len(n.m)), k |-> [i \in 1..Len(n.c) |-> RawTerm(n.c[i])]]
EmitAll == (Emit /\ Done /\ pair[1] = pair[2]) => PrintT("GEN " \o ToJson([t |-> RawTerm(pair[1])]))
=============================================================================
