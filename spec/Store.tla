------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Index directories, seen from outside.  What a directory holds is        *)
(*    Fresh     nothing at all                                             *)
(*    Debris    something, but no index that may be served                 *)
(*    g         the complete index g                                       *)
(* and what is known about it is a non-empty set of these, since a build   *)
(* that is killed or in which an operation fails may have completed.       *)
(* Empty(g) says that g has no expressions (building it fails).            *)
(*                                                                         *)
(* Each operation is a relation between what was held, what was observed   *)
(* and what is held afterwards.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Fresh, Debris
Refused == "refused"
Nothing == {Fresh, Debris}

(* build g into a directory that holds o: set of <<succeeded, held afterwards>> *)
BuildOutcomes(o, g, del, fault, empty) ==
   IF o \notin Nothing /\ ~del THEN { <<FALSE, o>> }
   ELSE LET done    == IF empty THEN {<<FALSE, Debris>>} ELSE {<<TRUE, g>>}
            stopped == {<<FALSE, Debris>>, <<FALSE, o>>} \cup (IF empty THEN {} ELSE {<<FALSE, g>>, <<TRUE, g>>})
            (* left-overs of another build may be refused without the delete option *)
            messy   == IF o = Debris /\ ~del THEN {<<FALSE, Debris>>} ELSE {}
        IN IF fault THEN stopped ELSE done \cup messy

(* serve the directory, building g (if given) when there is no index:      *)
(* set of <<served index or Refused, held afterwards>>                     *)
ServeOutcomes(o, given, g, del, fault, empty) ==
   IF o \notin Nothing
   THEN { <<o, o>> } \cup (IF fault THEN { <<Refused, o>> } \cup
                              (IF given /\ del THEN {<<IF b[1] THEN g ELSE Refused, b[2]>> : b \in BuildOutcomes(o, g, del, TRUE, empty)} ELSE {})
                           ELSE {})
   ELSE IF ~given THEN { <<Refused, o>> }
   ELSE {<<IF b[1] THEN g ELSE Refused, b[2]>> : b \in BuildOutcomes(o, g, del, fault, empty)}

BuildAfter(P, g, del, fault, empty, succeeded) ==
   {b[2] : b \in {c \in UNION {BuildOutcomes(o, g, del, fault, empty) : o \in P} : c[1] = succeeded}}
=============================================================================
