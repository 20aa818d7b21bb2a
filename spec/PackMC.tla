------------------------------- MODULE PackMC -------------------------------
(***************************************************************************)
(* Storing what crawls find.  A crawl collects the formulae of its pages,  *)
(* writes a file when it holds Limit or more, and another at its end; a    *)
(* file is named after the second, with a suffix if that name is taken.    *)
(* Mode "overwrite" does not look whether the name is taken, "lastpage"    *)
(* writes before it adds the page and forgets the rest at the end,         *)
(* "keeps" does not empty what it has written.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Limit, MaxFound, MaxCrawls, MaxTime, Mode

VARIABLES clock, crawl, held, files, next
vars == <<clock, crawl, held, files, next>>
Init == clock = 0 /\ crawl = 1 /\ held = << >> /\ files = << >> /\ next = 1

Name == [t |-> clock, n |-> IF Mode = "overwrite" THEN 0 ELSE CHOOSE k \in 0..Len(files) : \A i \in 1..Len(files) : files[i].name # [t |-> clock, n |-> k]
                                                              /\ \A j \in 0..(k - 1) : \E m \in 1..Len(files) : files[m].name = [t |-> clock, n |-> j]]
Store(fs) == files' = Append(SelectSeq(files, LAMBDA f : f.name # Name), [name |-> Name, has |-> fs])
Page == /\ crawl <= MaxCrawls
        /\ \E n \in 0..3 :
             /\ next + n <= MaxFound + 1
             /\ LET new == [i \in 1..n |-> next + i - 1]
                    all == held \o new
                IN IF Len(IF Mode = "lastpage" THEN held ELSE all) >= Limit
                   THEN /\ Store(IF Mode = "lastpage" THEN held ELSE all)
                        /\ held' = (IF Mode = "keeps" THEN all ELSE IF Mode = "lastpage" THEN new ELSE << >>)
                   ELSE held' = all /\ UNCHANGED files
             /\ next' = next + n
        /\ UNCHANGED <<clock, crawl>>
EndCrawl == /\ crawl <= MaxCrawls /\ crawl' = crawl + 1 /\ held' = << >>
            /\ IF Mode = "lastpage" THEN UNCHANGED files ELSE Store(held)
            /\ UNCHANGED <<clock, next>>
Tick == clock < MaxTime /\ clock' = clock + 1 /\ UNCHANGED <<crawl, held, files, next>>
Next == Page \/ EndCrawl \/ Tick
Spec == Init /\ [][Next]_vars

Stored == UNION {{files[i].has[k] : k \in 1..Len(files[i].has)} : i \in 1..Len(files)}
Times(x) == Cardinality({i \in 1..Len(files) : \E k \in 1..Len(files[i].has) : files[i].has[k] = x})
NothingLost == Stored \cup {held[k] : k \in 1..Len(held)} = 1..(next - 1)
EachOnce == \A x \in Stored : Times(x) = 1
NamesDiffer == \A i, j \in 1..Len(files) : files[i].name = files[j].name => i = j
(* a stored file never changes *)
StoredStays == [][\A i \in 1..Len(files) : \E j \in 1..Len(files') : files'[j] = files[i]]_vars
=============================================================================
