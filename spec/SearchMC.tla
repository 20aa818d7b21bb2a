------------------------------ MODULE SearchMC ------------------------------
(***************************************************************************)
(* How a search walks the index.  The formulae of an index form a trie of   *)
(* their tokens in pre-order; a query is matched token by token, a variable *)
(* or a range taking every branch in turn, and what a branch has bound is   *)
(* undone when the next one is tried.                                       *)
(*                                                                          *)
(* Over every index of at most K formulae of a small universe and every     *)
(* pattern of a small set, in every order of the branches: what the walk    *)
(* has found when it ends is exactly what the definition of matching says   *)
(* (and never more in between), each formula once.  Wrong ways to walk are  *)
(* refuted.  The same universe and patterns are printed (Emit); the driver  *)
(* has the real engines search them.                                        *)
(***************************************************************************)
EXTENDS Terms, FiniteSetsExt, Json

CONSTANTS Atoms,      \* texts of the leaves of formulae ("1": a number)
          PLeaves,    \* leaves of patterns: atoms, "?x" variables, "?" anonymous, "1..2" ranges
          Inner,      \* arities of the nodes directly above leaves
          Outer,      \* arities of the roots
          K,          \* formulae in an index
          Wrong,      \* a way to walk wrongly, or "no"
          Emit        \* print universe and patterns only

(* signatures *)
AB   == {<<"ci", "a">>, <<"ci", "b">>}
XY   == {<<"var", "x">>, <<"var", "y">>}
PA   == XY \cup {<<"ci", "a">>, <<"var", "">>}
PXYZ == XY \cup {<<"ci", "a">>, <<"var", "">>, <<"var", "z">>}
Nums == {<<"cn", "1">>, <<"cn", "2">>, <<"cn", "10">>, <<"ci", "1">>}
PNum == {<<"var", "x">>, <<"cn", "2">>, <<"range", "1", "2">>, <<"range", "2", "">>, <<"range", "", "9">>}
NumX == {<<"cn", "-1">>, <<"cn", "0.5">>, <<"cn", "2">>, <<"cn", "10">>, <<"ci", "2">>, <<"cn", "two">>}
PNuX == XY \cup {<<"cn", "2">>, <<"range", "-1", "2">>, <<"range", "2", "">>, <<"range", "", "0.5">>, <<"range", "3", "1">>,
                  <<"range", "", "">>}

Tk(t, x, k) == [t |-> t, a |-> EmptyEnv, x |-> x, k |-> k]
LeafOf(s) ==
   CASE s[1] = "var"   -> Tk(QvarTag, s[2], << >>)
     [] s[1] = "range" -> [t |-> RangeTag, a |-> (IF s[2] = "" THEN EmptyEnv ELSE ("low" :> s[2]))
                                                 @@ (IF s[3] = "" THEN EmptyEnv ELSE ("high" :> s[3])), x |-> "", k |-> << >>]
     [] OTHER          -> Tk(s[1], s[2], << >>)

HeadTag == <<"sin", "times", "plus", "power", "root", "eq", "leq">>
Nodes(args, arities) == UNION {{Tk(HeadTag[n], "", k) : k \in [1..n -> args]} : n \in arities}
Trees(leaves) == LET L == {LeafOf(s) : s \in leaves}
                     I == L \union Nodes(L, Inner)
                 IN I \union Nodes(I, Outer)

Universe == Trees(Atoms)
Patterns == Trees(PLeaves)

RECURSIVE Tokens(_)           \* pre-order tokens of a normal term
Tokens(n) == <<<<n.m, Len(n.c)>>>> \o FoldLeft(LAMBDA acc, c : acc \o Tokens(c), << >>, n.c)

VARIABLES F,        \* the formulae: normal terms
          q,        \* the query: a normal term
          path,     \* tokens followed so far: a node of the trie
          todo,     \* what is left to be matched: query terms, or a count of index terms to be swallowed by a variable
          env,      \* what the variables are bound to: sequences of tokens
          alts,     \* what is to be tried later
          hits,     \* what has been found: sequence of token sequences
          phase
vars == <<F, q, path, todo, env, alts, hits, phase>>

Goal(t) == [t |-> t, left |-> 0, from |-> 0]

Init ==
   IF Emit THEN /\ F = {} /\ q = {} /\ path = << >> /\ todo = << >> /\ env = EmptyEnv /\ alts = << >> /\ hits = << >>
                /\ phase = "emit"
   ELSE /\ \E S \in UNION {kSubset(k, Universe) : k \in 1..K} : F = {Norm(t) : t \in S}
        /\ \E p \in Patterns : q = Norm(p)
        /\ path = << >> /\ env = EmptyEnv /\ alts = << >> /\ hits = << >> /\ phase = "walk"
        /\ todo = <<Goal(q)>>

All == {Tokens(f) : f \in F}
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Children == {s[Len(path) + 1] : s \in {a \in All : Starts(a, path) /\ Len(a) > Len(path)}}
Rest(sq) == SubSeq(sq, 2, Len(sq))

(* swallowing a token of this arity leaves this many terms *)
Fail ==             \* to what was put off last, or the end
   IF alts = << >> THEN phase' = "done" /\ UNCHANGED <<path, todo, env, alts>>
   ELSE LET a == alts[Len(alts)] IN
        /\ path' = a.path /\ todo' = a.todo /\ phase' = "walk"
        /\ env' = IF Wrong = "bindings stay" THEN env ELSE a.env
        /\ alts' = IF Wrong = "jump back too far" /\ Len(alts) > 1 THEN SubSeq(alts, 1, Len(alts) - 2)
                   ELSE SubSeq(alts, 1, Len(alts) - 1)

(* try these continuations, in some order *)
Try(S) ==
   IF S = {} THEN Fail
   ELSE \E ord \in SetToSeqs(S) :
        /\ path' = ord[1].path /\ todo' = ord[1].todo /\ env' = ord[1].env
        /\ alts' = alts \o (IF Wrong = "first branch only" THEN << >> ELSE Reverse(Rest(ord)))
        /\ UNCHANGED phase

To(p, td, e) == [path |-> p, todo |-> td, env |-> e]
Walking == phase = "walk" /\ todo # << >>
G == todo[1]

(* a constant: one way on *)
Constant ==
   /\ Walking /\ G.left = 0 /\ G.t.s = "c"
   /\ LET tk == <<G.t.m, Len(G.t.c)>> IN
      Try(IF tk \in Children THEN {To(Append(path, tk), [i \in 1..Len(G.t.c) |-> Goal(G.t.c[i])] \o Rest(todo), env)} ELSE {})
   /\ UNCHANGED <<F, q, hits>>

(* a variable that is bound: its tokens again *)
Again ==
   /\ Walking /\ G.left = 0 /\ G.t.s = "v" /\ G.t.m \in DOMAIN env
   /\ LET p == path \o env[G.t.m] IN
      Try(IF Wrong = "bound variables match anything of that length"
          THEN {To(SubSeq(a, 1, Len(p)), Rest(todo), env) : a \in {a \in All : Starts(a, path) /\ Len(a) >= Len(p)}}
          ELSE IF \E a \in All : Starts(a, p) THEN {To(p, Rest(todo), env)} ELSE {})
   /\ UNCHANGED <<F, q, hits>>

Swallow(tk, goal) ==
   LET left == (IF goal.left = 0 THEN 1 ELSE goal.left) - 1 + tk[2]
       from == IF goal.left = 0 THEN Len(path) ELSE goal.from
       p    == Append(path, tk)
   IN IF left = 0
      THEN To(p, Rest(todo), IF goal.t.s = "v" THEN (goal.t.m :> SubSeq(p, from + 1, Len(p))) @@ env ELSE env)
      ELSE To(p, <<[goal EXCEPT !.left = left, !.from = from]>> \o Rest(todo), env)

(* a variable that is not bound yet, or in the middle of a term *)
Variable ==
   /\ Walking /\ G.t.s \in {"v", "w"} /\ (G.left > 0 \/ G.t.m \notin DOMAIN env)
   /\ Try({Swallow(tk, G) : tk \in Children})
   /\ UNCHANGED <<F, q, hits>>

(* a range: every number in it *)
Range_ ==
   /\ Walking /\ G.left = 0 /\ G.t.s = "r"
   /\ LET Leaf(tk) == [s |-> "c", m |-> tk[1], lo |-> 0, hi |-> 0, c |-> << >>] IN
      Try({To(Append(path, tk), Rest(todo), env) :
             tk \in {tk \in Children : tk[2] = 0 /\ InRange(G.t, Leaf(tk))}})
   /\ UNCHANGED <<F, q, hits>>

(* everything matched: a formula is found *)
Found ==
   /\ phase = "walk" /\ todo = << >>
   /\ hits' = Append(hits, path) /\ Fail
   /\ UNCHANGED <<F, q>>

Stop == phase # "walk" /\ UNCHANGED vars
Next == Constant \/ Again \/ Variable \/ Range_ \/ Found \/ Stop
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Declared == {Tokens(f) : f \in {f \in F : Matches(q, f)}}
FoundSet == {hits[i] : i \in 1..Len(hits)}
Sound    == phase # "emit" => FoundSet \subseteq Declared
Once     == Cardinality(FoundSet) = Len(hits)
Complete == phase = "done" => FoundSet = Declared

EmitAll == phase = "emit" => /\ \A t \in Universe : PrintT("GEN " \o ToJson([k |-> "formula", t |-> t]))
                             /\ \A t \in Patterns : PrintT("GEN " \o ToJson([k |-> "pattern", t |-> t]))
=============================================================================
