------------------------------ MODULE QueueMC ------------------------------
(***************************************************************************)
(* Submissions to the crawler service.  Each client opens a connection,    *)
(* sends its form in pieces, may go away, and reads the answer; the        *)
(* service's one thread collects the fields piece by piece, answers, and   *)
(* puts complete requests into the queue; the crawling thread takes the    *)
(* first request out and crawls.                                           *)
(*                                                                         *)
(* Pieces is how many pieces the value comes in.  Mode "code", or one of   *)
(* the mistakes TLC must refute: "lastpiece" keeps only the last piece of  *)
(* a value, "halfway" queues what an interrupted request had delivered,    *)
(* "oneslot" holds one request instead of a queue, "peek" looks at the     *)
(* first request and removes it later, "twice" queues again when the       *)
(* connection ends, "newest" takes the request that came last.             *)
(* Complete histories of the clients' moves are printed for replay.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients, Pieces, Mode, Emit

VARIABLES st,      \* client -> "new", "open", "answered", "read", "gone"
          sent,    \* client -> pieces sent
          form,    \* client -> what the service has collected
          queue,   \* requests: [of, value]
          crawler, \* what the crawling thread holds: << >>, <<request>>
          held,    \* the crawling thread has looked but not removed ("peek")
          done,    \* crawls made, in order
          acks,    \* clients in the order they read "we sent the request"
          prior,   \* client -> who had read its answer when it opened
          hist
vars == <<st, sent, form, queue, crawler, held, done, acks, prior, hist>>

Init == /\ st = [c \in Clients |-> "new"] /\ sent = [c \in Clients |-> 0] /\ form = [c \in Clients |-> << >>]
        /\ queue = << >> /\ crawler = << >> /\ held = FALSE /\ done = << >> /\ acks = << >>
        /\ prior = [c \in Clients |-> {}] /\ hist = << >>
Log(c, a) == hist' = Append(hist, <<c, a>>)

Enqueue(r) == queue' = IF Mode = "oneslot" THEN <<r>> ELSE Append(queue, r)
Req(c) == [of |-> c, value |-> form[c]]

Open(c) == /\ st[c] = "new" /\ st' = [st EXCEPT ![c] = "open"] /\ Log(c, "open")
           /\ prior' = [prior EXCEPT ![c] = {acks[i] : i \in 1..Len(acks)}]
           /\ UNCHANGED <<sent, form, queue, crawler, held, done, acks>>
(* the service sees a piece before the next one is sent, or both together; what it collects is the same *)
Send(c) == /\ st[c] = "open" /\ sent[c] < Pieces /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ Log(c, "send")
           /\ form' = [form EXCEPT ![c] = IF Mode = "lastpiece" THEN <<sent[c] + 1>> ELSE Append(@, sent[c] + 1)]
           /\ UNCHANGED <<st, queue, crawler, held, done, acks, prior>>
(* the whole request is there: answer it and queue it *)
Answer(c) == /\ st[c] = "open" /\ sent[c] = Pieces /\ st' = [st EXCEPT ![c] = "answered"]
             /\ Enqueue(Req(c)) /\ UNCHANGED <<sent, form, crawler, held, done, acks, prior, hist>>
Read(c) == /\ st[c] = "answered" /\ st' = [st EXCEPT ![c] = "read"] /\ acks' = Append(acks, c) /\ Log(c, "read")
           /\ IF Mode = "twice" THEN Enqueue(Req(c)) ELSE UNCHANGED queue
           /\ UNCHANGED <<sent, form, crawler, held, done, prior>>
Leave(c) == /\ st[c] = "open" /\ sent[c] < Pieces /\ st' = [st EXCEPT ![c] = "gone"] /\ Log(c, "leave")
            /\ IF Mode = "halfway" /\ form[c] # << >> THEN Enqueue(Req(c)) ELSE UNCHANGED queue
            /\ UNCHANGED <<sent, form, crawler, held, done, acks, prior>>

Take == /\ crawler = << >> /\ queue # << >>
        /\ LET k == IF Mode = "newest" THEN Len(queue) ELSE 1 IN
           /\ crawler' = <<queue[k]>>
           /\ IF Mode = "peek" THEN held' = TRUE /\ UNCHANGED queue
              ELSE /\ queue' = SubSeq(queue, 1, k - 1) \o SubSeq(queue, k + 1, Len(queue)) /\ UNCHANGED held
        /\ UNCHANGED <<st, sent, form, done, acks, prior, hist>>
(* with "peek": the last request leaves, whichever that is by now *)
Remove == /\ held /\ queue # << >> /\ held' = FALSE /\ queue' = SubSeq(queue, 1, Len(queue) - 1)
          /\ UNCHANGED <<st, sent, form, crawler, done, acks, prior, hist>>
Crawl == /\ crawler # << >> /\ ~held /\ done' = Append(done, crawler[1]) /\ crawler' = << >>
         /\ UNCHANGED <<st, sent, form, queue, held, acks, prior, hist>>

Next == (\E c \in Clients : Open(c) \/ Send(c) \/ Answer(c) \/ Read(c) \/ Leave(c)) \/ Take \/ Remove \/ Crawl
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == [k \in 1..Pieces |-> k]
AsSubmitted == \A i \in 1..Len(done) : done[i].value = Whole
ExactlyOnce == \A i, j \in 1..Len(done) : done[i].of = done[j].of => i = j
OnlyComplete == \A i \in 1..Len(done) : st[done[i].of] # "gone"
(* who knew of an answer before submitting is served after it *)
InOrder == \A i \in 1..Len(done) : \A c \in prior[done[i].of] : \E j \in 1..(i - 1) : done[j].of = c
AllExecuted == <>(\A c \in Clients : st[c] = "gone" \/ \E i \in 1..Len(done) : done[i].of = c)
Over == \A c \in Clients : st[c] \in {"read", "gone"}
EmitHistory == (Emit /\ Over /\ queue = << >> /\ crawler = << >>) => PrintT("GEN " \o ToJson(hist))
=============================================================================
