---------------------------- MODULE ExportTrace ----------------------------
(***************************************************************************)
(* Recorded exports against the specification, together with searches in   *)
(* the id format over the same index, which say the ids of terms.          *)
(***************************************************************************)
EXTENDS SearchTrace, Export

VARIABLE fid          \* <<index, term>> -> formula id as searches gave it

XInit == Init /\ fid = EmptyEnv

Ids ==
   /\ IdsOf
   /\ LET t == QueryTerm(ev.q, ren[ev.n])
          f == Formulae(Answer(idx[ev.n], t))
      IN fid' = IF Cardinality(f) = 1 /\ Len(ev.ids) = 1 THEN (<<ev.n, CHOOSE s \in f : TRUE>> :> ev.ids[1]) @@ fid ELSE fid

Pairs(sq) == {<<sq[i][1], sq[i][2]>> : i \in 1..Len(sq)}
Graph(f) == {<<x, f[x]>> : x \in DOMAIN f}

(* the id listed with these addresses stands for this term *)
StandsFor(hit, t, occ) ==
   /\ <<ev.n, t>> \in DOMAIN fid => fid[<<ev.n, t>>] = hit[1]
   /\ {hit[2][i][1] : i \in 1..Len(hit[2])} = {o.u : o \in {x \in occ : x.s = t}}
   /\ \A i \in 1..Len(hit[2]) : [u |-> hit[2][i][1], p |-> hit[2][i][2], s |-> t] \in occ

RecordChecks(rec, hv, j, nm) ==
   LET root == DataTree(hv.docs[j])
       indexed == {idx[ev.n][i].s : i \in 1..Len(idx[ev.n])}
       occ == OccurrencesIn(hv, j, ren[ev.n], indexed)
       terms == {o.s : o \in occ}
       known == {fid[x] : x \in {y \in DOMAIN fid : y[1] = ev.n}}
       at == nm \o ", document " \o ToString(j) \o ": "
   IN << <<at \o "id", rec.id = FirstText(root, "id"), FirstText(root, "id")>>,
         <<at \o "text", rec.text = FirstText(root, "text"), FirstText(root, "text")>>,
         <<at \o "metadata", Pairs(rec.meta) = Graph(MetaOf(root)), Graph(MetaOf(root))>>,
         <<at \o "math", Pairs(rec.math) = Graph(MathOf(root)), Graph(MathOf(root))>>,
         <<at \o "ids listed once", Cardinality({rec.ids[i] : i \in 1..Len(rec.ids)}) = Len(rec.ids), "">>,
         <<at \o "ids and addresses", {rec.ids[i] : i \in 1..Len(rec.ids)} = {rec.hits[i][1] : i \in 1..Len(rec.hits)}
                                      /\ Len(rec.ids) = Len(rec.hits), "">>,
         <<at \o "number of ids", Len(rec.ids) = Cardinality(terms), Cardinality(terms)>>,
         <<at \o "ids of no term", \A i \in 1..Len(rec.hits) : \E t \in terms : StandsFor(rec.hits[i], t, occ), occ>>,
         <<at \o "terms without id", \A t \in terms : \E i \in 1..Len(rec.hits) : StandsFor(rec.hits[i], t, occ),
           {t \in terms : ~\E i \in 1..Len(rec.hits) : StandsFor(rec.hits[i], t, occ)}>> >>

(* the export of a file; had: exported before *)
FileChecks(e, f) ==
   LET sel == Loaded(ev.tree, ev.top, e, "." \o ev.ext, ev.rec) IN
   IF f.had THEN << <<f.name \o " already exported: left untouched", f.same, "">> >>
   ELSE IF ~sel THEN << <<f.name \o " is not to be exported", ~f.exists, "">> >>
   ELSE IF ~f.exists THEN << <<f.name \o " is exported", FALSE, "">> >>
   ELSE LET hv == ReadHarvest(e.stream.events) IN
        << <<f.name \o " readable", f.bad = "", "">>,
           <<f.name \o " one record per document", Len(f.recs) = Len(hv.docs), Len(hv.docs)>> >>
        \o (IF f.bad # "" \/ Len(f.recs) # Len(hv.docs) THEN << >>
            ELSE FoldLeft(LAMBDA acc, j : acc \o RecordChecks(f.recs[j], hv, j, f.name), << >>, [j \in 1..Len(hv.docs) |-> j]))

Exported ==
   /\ ev.e = "Export"
   /\ Verify(<< <<"exit code", ev.rc = 0, 0>>, <<"nothing else is written", ev.others = << >>, "">> >>
             \o FoldLeft(LAMBDA acc, i : acc \o (IF ev.tree[i].kind = "dir" THEN << >> ELSE FileChecks(ev.tree[i], ev.files[i])),
                         << >>, [i \in 1..Len(ev.tree) |-> i]))
   /\ UNCHANGED <<idx, ren, full, ids, fid>>

XNext == l <= Len(Trace) /\ l' = l + 1
         /\ \/ (AnIndex \/ ATree \/ Built \/ Fact) /\ UNCHANGED fid
            \/ Forget /\ fid' = EmptyEnv
            \/ ev.e = "Ids" /\ Ids
            \/ Exported
XSpec == XInit /\ [][XNext]_<<vars, fid>>
=============================================================================
