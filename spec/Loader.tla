------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Which harvests are loaded.  A file tree is a sequence of entries        *)
(*    [dir |-> names from the top, name, kind, ok, stream]                 *)
(* where kind is "file", "dir", "link" or "other" and ok says whether the  *)
(* entry can be opened.  Loading a directory visits its non-hidden         *)
(* entries, and those of its non-hidden sub-directories if recursion was   *)
(* requested, and ingests each regular file whose path ends in ext, once   *)
(* for each time the directory was asked for.                              *)
(***************************************************************************)
EXTENDS Index

HasSuffix(str, suf) == Len(str) >= Len(suf) /\ SubSeq(str, Len(str) - Len(suf) + 1, Len(str)) = suf
Hidden(name) == Len(name) > 0 /\ Ch(name, 1) = "."

IsPrefixSeq(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* the directory dir can be listed *)
Listable(tree, dir) ==
   \A i \in 1..Len(tree) : (tree[i].kind = "dir" /\ IsPrefixSeq(Append(tree[i].dir, tree[i].name), dir)) => tree[i].ok

Visited(tree, top, dir, rec) ==
   /\ IsPrefixSeq(top, dir)
   /\ rec \/ Len(dir) = Len(top)
   /\ \A k \in (Len(top) + 1)..Len(dir) : ~Hidden(dir[k])
   /\ \A k \in Len(top)..Len(dir) : Listable(tree, SubSeq(dir, 1, k))

Loaded(tree, top, e, ext, rec) ==
   /\ e.kind = "file" /\ e.ok
   /\ ~Hidden(e.name)
   /\ Visited(tree, top, e.dir, rec)
   /\ HasSuffix("/" \o e.name, ext)

SelectedStreams(tree, tops, ext, rec) ==
   LET RECURSIVE From(_)
       From(n) == IF n > Len(tops) THEN << >>
                  ELSE [i \in 1..Len(SelectSeq(tree, LAMBDA e : Loaded(tree, tops[n], e, ext, rec))) |->
                          SelectSeq(tree, LAMBDA e : Loaded(tree, tops[n], e, ext, rec))[i].stream] \o From(n + 1)
   IN From(1)
=============================================================================
