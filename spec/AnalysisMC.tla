----------------------------- MODULE AnalysisMC -----------------------------
(***************************************************************************)
(* How an analysis rebuilds the formulae of an index.  The formulae form a  *)
(* trie of their tokens in pre-order, which is walked depth first; on the   *)
(* way down every token becomes a node below the node that is next to get   *)
(* a child, on the way up it is taken away again.  A list of nodes to get   *)
(* children is kept for that: a node with n children is put on it n times.  *)
(*                                                                          *)
(* Over every index of at most K formulae of a small universe, in every     *)
(* order of the branches: at every leaf the formula built is the one that   *)
(* leads there, and at the end each formula was visited once.  Wrong ways:  *)
(* "place lost" - taking a node away does not give its place back;          *)
(* "places stay" - taking a node away leaves its children's places behind;  *)
(* "oldest first" - the node that waits longest gets the next child.        *)
(***************************************************************************)
EXTENDS Terms, FiniteSetsExt

CONSTANTS Leaves, Inner, Outer, K, Wrong

Tree(m, c) == [m |-> m, c |-> c]
NodesOf(args, arities) == UNION {{Tree(ToString(n), c) : c \in [1..n -> args]} : n \in arities}
Universe == LET L == {Tree(x, << >>) : x \in Leaves}
                I == L \cup NodesOf(L, Inner)
            IN I \cup NodesOf(I, Outer)

RECURSIVE Tokens(_)
Tokens(t) == <<<<t.m, Len(t.c)>>>> \o FoldLeft(LAMBDA acc, c : acc \o Tokens(c), << >>, t.c)

VARIABLES F,       \* the formulae
          path,    \* tokens from the root of the trie to where the walk is
          seen,    \* for each node on the way, the tokens already tried below it
          built,   \* the nodes of the formula being built: [m, parent], in order
          waiting, \* nodes (by number) to get children
          visits   \* formulae visited
vars == <<F, path, seen, built, waiting, visits>>

Init == /\ \E g \in [1..K -> Universe] : F = {g[k] : k \in 1..K}
        /\ path = << >> /\ seen = <<{}>> /\ built = << >> /\ waiting = << >> /\ visits = << >>

All == {Tokens(f) : f \in F}
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Children == {s[Len(path) + 1] : s \in {a \in All : Starts(a, path) /\ Len(a) > Len(path)}}
Front_(s) == SubSeq(s, 1, Len(s) - 1)
Times(x, n) == [i \in 1..n |-> x]
Here == Len(path) + 1

RECURSIVE FormulaAt(_)
FormulaAt(i) == LET kids == SelectSeq([j \in 1..Len(built) |-> j], LAMBDA j : built[j].parent = i)
                IN Tree(built[i].m, [j \in 1..Len(kids) |-> FormulaAt(kids[j])])

Down == \E tk \in Children \ seen[Here] :
   LET root == built = << >>
       up   == IF root THEN 0 ELSE IF waiting = << >> THEN -1
               ELSE IF Wrong = "oldest first" THEN waiting[1] ELSE waiting[Len(waiting)]
       rest == IF waiting = << >> THEN << >>
               ELSE IF root THEN waiting
               ELSE IF Wrong = "oldest first" THEN SubSeq(waiting, 2, Len(waiting)) ELSE Front_(waiting)
   IN /\ built' = Append(built, [m |-> tk[1], n |-> tk[2], parent |-> up])
      /\ waiting' = rest \o Times(Len(built) + 1, tk[2])
      /\ path' = Append(path, tk)
      /\ seen' = Append([seen EXCEPT ![Here] = @ \cup {tk}], {})
      /\ UNCHANGED <<F, visits>>

Visit == /\ Children = {} /\ path # << >> /\ seen[Here] = {}
         /\ visits' = Append(visits, FormulaAt(1))
         /\ seen' = [seen EXCEPT ![Here] = {<<"visited", 0>>}]
         /\ UNCHANGED <<F, path, built, waiting>>

Up == /\ path # << >> /\ Children \subseteq seen[Here] /\ seen[Here] # {}
      /\ LET b == built[Len(built)]
             w == IF Wrong = "places stay" \/ Len(waiting) < b.n THEN waiting ELSE SubSeq(waiting, 1, Len(waiting) - b.n)
         IN waiting' = IF b.parent = 0 \/ Wrong = "place lost" THEN w
                       ELSE IF Wrong = "oldest first" THEN <<b.parent>> \o w ELSE Append(w, b.parent)
      /\ built' = Front_(built) /\ path' = Front_(path) /\ seen' = Front_(seen)
      /\ UNCHANGED <<F, visits>>

Done == path = << >> /\ Children \subseteq seen[1]
Stop == Done /\ UNCHANGED vars
Next == Down \/ Visit \/ Up \/ Stop
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Right    == visits # << >> => Last(visits) \in F
Current  == (path # << >> /\ Children = {}) => (\A i \in 1..Len(built) : built[i].parent >= 0) /\ FormulaAt(1) \in F
                                               /\ Tokens(FormulaAt(1)) = path
Once     == Cardinality({visits[i] : i \in 1..Len(visits)}) = Len(visits)
Complete == Done => {visits[i] : i \in 1..Len(visits)} = F
NothingLeft == path = << >> => waiting = << >> /\ built = << >>
=============================================================================
