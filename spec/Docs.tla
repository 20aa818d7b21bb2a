-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* Documents and the harvest made of them.                                 *)
(*                                                                         *)
(* A document is a tree of nodes, a node being an element or a text:       *)
(*    [t |-> local name, p |-> prefix, u |-> in a namespace?,              *)
(*     a |-> sequence of <<name, value, prefixed?>>, k |-> nodes,          *)
(*     x |-> "", w |-> << >>]                                              *)
(*    [t |-> "", x |-> the text, w |-> its words, ...]                     *)
(* the root of the tree being the document itself.                         *)
(*                                                                         *)
(* The harvest is a sequence of items                                      *)
(*    [i |-> "data", did, id, text, meta |-> <<name, text>>*,              *)
(*     math |-> <<number, term>>*]                                         *)
(*    [i |-> "expr", url, did, term]                                       *)
(* where a term is [t, a |-> <<name, value>>*, x, k]; white space in the   *)
(* texts of terms means nothing.                                           *)
(***************************************************************************)
EXTENDS Terms

FlatMap(F(_), sq) == FoldLeft(LAMBDA acc, y : acc \o F(y), << >>, sq)
Map(F(_), sq)     == FoldLeft(LAMBDA acc, y : Append(acc, F(y)), << >>, sq)

IsText(n) == n.t = ""
IsElem(n) == n.t # ""
Elems(n)  == SelectSeq(n.k, IsElem)
IsMath(n) == n.t = "math"

AttrsOf(n, name) == SelectSeq(n.a, LAMBDA y : y[1] = name /\ ~y[3])
HasA(n, name) == AttrsOf(n, name) # << >>
AttrOf(n, name) == AttrsOf(n, name)[1][2]

RECURSIVE Under(_)            \* the elements below n, in document order
Under(n) == FlatMap(LAMBDA c : IF IsText(c) THEN << >> ELSE <<c>> \o Under(c), n.k)

Maths(doc) == SelectSeq(Under(doc), IsMath)

(* the content of a formula: the first element, in document order, that is *)
(* a child of one of the annotations with content                          *)
IsContent(n) == HasA(n, "encoding") /\ AttrOf(n, "encoding") = "MathML-Content"
RECURSIVE Candidates(_, _)
Candidates(n, inside) ==
   FlatMap(LAMBDA c : (IF inside THEN <<c>> ELSE << >>) \o Candidates(c, IsContent(c)), Elems(n))
HasContent(m) == Candidates(m, FALSE) # << >>
ContentOf(m)  == Candidates(m, FALSE)[1]

Harvested(doc) == SelectSeq(Maths(doc), LAMBDA m : HasA(m, "id") /\ HasContent(m))

TextIn(n) == FoldLeft(LAMBDA s, c : s \o c.x, "", SelectSeq(n.k, IsText))
Pairs(sq) == Map(LAMBDA y : <<y[1], y[2]>>, sq)

RECURSIVE Clean(_)            \* without ids, cross-references and prefixes
Clean(n) == [t |-> n.t, x |-> Strip(TextIn(n)),
             a |-> Pairs(SelectSeq(n.a, LAMBDA y : ~y[3] /\ y[1] \notin {"id", "xref"})),
             k |-> Map(Clean, Elems(n))]
RECURSIVE AsIs(_)
AsIs(n) == [t |-> n.p \o n.t, x |-> Strip(TextIn(n)), a |-> Pairs(n.a),
            k |-> Map(AsIs, Elems(n))]

(***************************************************************************)
(* Numbers of formulae: identifiers are numbered as they are first met,    *)
(* in the text and then among the formulae.                                *)
(***************************************************************************)
RECURSIVE TextMaths(_)        \* identifiers met in the text of n
TextMaths(n) ==
   FlatMap(LAMBDA c :
      CASE IsText(c) -> << >>
        [] IsMath(c) -> IF HasA(c, "id") THEN <<AttrOf(c, "id")>> ELSE << >>
        [] OTHER -> TextMaths(c), n.k)

Distinct(sq) == FoldLeft(LAMBDA seen, y : IF \E j \in 1..Len(seen) : seen[j] = y THEN seen ELSE Append(seen, y), << >>, sq)
NumberIn(numbering, id) == CHOOSE i \in 1..Len(numbering) : numbering[i] = id

RECURSIVE Words(_, _)         \* the text of n as words; formulae by number, or by identifier
Words(n, numbering) ==
   FlatMap(LAMBDA c :
      CASE IsText(c) -> c.w
        [] IsMath(c) -> IF ~HasA(c, "id") THEN << >>
                        ELSE <<"math" \o (IF numbering = << >> THEN AttrOf(c, "id")
                                          ELSE ToString(NumberIn(numbering, AttrOf(c, "id"))))>>
        [] OTHER -> Words(c, numbering), n.k)
Joined(ws) == FoldLeft(LAMBDA s, w : IF s = "" THEN w ELSE s \o " " \o w, "", ws)

(***************************************************************************)
(* Selectors, as configured: the document itself, nothing, the first       *)
(* element of a name (perhaps only without namespace, perhaps with a       *)
(* given attribute value) or an attribute of such an element.              *)
(***************************************************************************)
Fits(n, sel) == /\ n.t = sel.t /\ (sel.plain => ~n.u)
                /\ (sel.wn # "" => HasA(n, sel.wn) /\ AttrOf(n, sel.wn) = sel.wv)
                /\ (sel.at # "" => HasA(n, sel.at))
Selected(doc, sel) == IF sel.t = "" THEN <<doc>> ELSE SelectSeq(Under(doc), LAMBDA n : Fits(n, sel))
TextBy(doc, sel, numbering) ==
   IF Selected(doc, sel) = << >> THEN ""
   ELSE IF sel.at # "" THEN AttrOf(Selected(doc, sel)[1], sel.at)
   ELSE Joined(Words(Selected(doc, sel)[1], numbering))

(* the options: a configuration file, and what overrides it *)
Everything == [t |-> "", plain |-> FALSE, wn |-> "", wv |-> "", at |-> ""]
ConfigOf(o) ==
   LET c == IF o.hasconf THEN o.conf
            ELSE [data |-> TRUE, hasid |-> FALSE, id |-> Everything, text |-> Everything, meta |-> << >>]
   IN [c EXCEPT !.data = @ /\ ~o.n, !.hasid = @ \/ o.hasx, !.id = IF o.hasx THEN o.x ELSE @]

Numbering(cfg, doc) ==
   LET inText == IF Selected(doc, cfg.text) = << >> THEN << >> ELSE TextMaths(Selected(doc, cfg.text)[1])
       h == Harvested(doc)
   IN Distinct(inText \o [i \in 1..Len(h) |-> AttrOf(h[i], "id")])

DocId(cfg, d) == IF cfg.hasid THEN TextBy(d.tree, cfg.id, << >>) ELSE d.path

(* what the harvest says of the document d, the j-th of the list *)
ItemsOf(cfg, d, j) ==
   LET num == Numbering(cfg, d.tree)
       h   == Harvested(d.tree)
       N(m) == NumberIn(num, AttrOf(m, "id"))
       did == ToString(j - 1)
   IN (IF ~cfg.data THEN << >>
       ELSE << [i |-> "data", did |-> did, id |-> DocId(cfg, d),
                text |-> TextBy(d.tree, cfg.text, num),
                meta |-> [i \in 1..Len(cfg.meta) |-> <<cfg.meta[i].name, TextBy(d.tree, cfg.meta[i].sel, << >>)>>],
                math |-> [i \in 1..Len(h) |-> <<ToString(N(h[i])), AsIs(h[i])>>]] >>)
      \o [i \in 1..Len(h) |->
            IF cfg.data THEN [i |-> "expr", did |-> did, url |-> ToString(N(h[i])), term |-> Clean(ContentOf(h[i]))]
            ELSE [i |-> "expr", did |-> "", url |-> DocId(cfg, d) \o "#" \o AttrOf(h[i], "id"), term |-> Clean(ContentOf(h[i]))]]

(***************************************************************************)
(* A list of documents: "good" ones have a known tree, "missing" ones are  *)
(* not readable, of "any" only the names of the items are known, which     *)
(* tell which document they belong to.                                     *)
(***************************************************************************)
HarvestOf(cfg, docs) ==
   FlattenSeq([j \in 1..Len(docs) |-> IF docs[j].kind = "good" THEN ItemsOf(cfg, docs[j], j) ELSE << >>])

Begins(str, pre) == Len(str) >= Len(pre) /\ SubSeq(str, 1, Len(pre)) = pre
OfAny(cfg, docs, it) ==
   \E j \in 1..Len(docs) : docs[j].kind = "any" /\
      IF cfg.data THEN it.did = ToString(j - 1) ELSE Begins(it.url, docs[j].path \o "#")

(* white space in an observed term *)
RECURSIVE Tidy(_)
Tidy(t) == [t EXCEPT !.x = Strip(@), !.k = Map(Tidy, @)]
TidyItem(it) == IF it.i = "data" THEN [it EXCEPT !.math = [i \in 1..Len(@) |-> <<@[i][1], Tidy(@[i][2])>>]]
                ELSE [it EXCEPT !.term = Tidy(@)]
=============
(* white space in an observed term *)
RECURSIVE Tidy(_)
Tidy(t) == [t EXCEPT !.x = Strip(@), !.k = Map(Tidy, @)]
TidyItem(it) == IF it.i = "data" THEN [it EXCEPT !.math = [i \in 1..Len(@) |-> <<@[i][1], Tidy(@[i][2])>>]]
                ELSE [it EXCEPT !.term = Tidy(@)]
=============
(* white space in an observed term *)
RECURSIVE Tidy(_)
Tidy(t) == [t EXCEPT !.x = Strip(@), !.k = Map(Tidy, @)]
TidyItem(it) == IF it.i = "data" THEN [it EXCEPT !.math = [i \in 1..Len(@) |-> <<@[i][1], Tidy(@[i][2])>>]]
                ELSE [it EXCEPT !.term = Tidy(@)]
=============
(* white space in an observed term *)
RECURSIVE Tidy(_)
Tidy(t) == [t EXCEPT !.x = Strip(@), !.k = Map(Tidy, @)]
TidyItem(it) == IF it.i = "data" THEN [it EXCEPT !.math = [i \in 1..Len(@) |-> <<@[i][1], Tidy(@[i][2])>>]]
                ELSE [it EXCEPT !.term = Tidy(@)]
=============
(* white space in an observed term *)
RECURSIVE Tidy(_)
Tidy(t) == [t EXCEPT !.x = Strip(@), !.k = Map(Tidy, @)]
TidyItem(it) == IF it.i = "data" THEN [it EXCEPT !.math = [i \in 1..Len(@) |-> <<@[i][1], Tidy(@[i][2])>>]]
                ELSE [it EXCEPT !.term = Tidy(@)]
=========================
