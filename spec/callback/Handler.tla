------------------------------- MODULE Handler -------------------------------
(* Step-by-step model of the multi-threaded callback handler: a request is    *)
(* added under the lock and published without it; a reply takes its request   *)
(* under the lock and calls back without it; callbacks may request again.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Tags, Ids, MaxReplies
VARIABLES free, open, sent, lock, pc, cur, calls, replies
vars == <<free, open, sent, lock, pc, cur, calls, replies>>
None == 0
IdOf(t) == t % Ids
Init == /\ free = Tags /\ open = <<>> /\ sent = {} /\ lock = None
        /\ pc = [t \in Threads |-> <<"idle">>] /\ cur = [t \in Threads |-> <<>>]
        /\ calls = [g \in Tags |-> 0] /\ replies = 0
Top(t) == pc[t][1]
\* user code: at top level or within a callback (the frames below stay on the stack)
Call(t, place, what) == /\ pc' = [pc EXCEPT ![t] = <<place>> \o @] /\ cur' = [cur EXCEPT ![t] = <<what>> \o @]
Goto(t, place) == pc' = [pc EXCEPT ![t][1] = place]
Return(t) == pc' = [pc EXCEPT ![t] = Tail(@)] /\ cur' = [cur EXCEPT ![t] = Tail(@)]
User(t) == Top(t) = "idle" \/ Top(t) = "incall" \/ Top(t) = "publishing"
BeginRequest(t) == /\ User(t) /\ Len(pc[t]) < 4 /\ free # {}
                   /\ \E g \in free : free' = free \ {g} /\ Call(t, "lockadd", g)
                   /\ UNCHANGED <<open, sent, lock, calls, replies>>
BeginReply(t) == /\ User(t) /\ Len(pc[t]) < 4 /\ replies < MaxReplies /\ replies' = replies + 1
                 /\ \E i \in 0..(Ids - 1) : Call(t, "locktake", i)
                 /\ UNCHANGED <<free, open, sent, lock, calls>>
Lock(t) == /\ Top(t) \in {"lockadd", "locktake"} /\ lock = None /\ lock' = t
           /\ Goto(t, IF Top(t) = "lockadd" THEN "add" ELSE "take") /\ UNCHANGED <<free, open, sent, cur, calls, replies>>
Add(t) == /\ Top(t) = "add" /\ open' = Append(open, cur[t][1]) /\ lock' = None /\ Goto(t, "publish")
          /\ UNCHANGED <<free, sent, cur, calls, replies>>
Publish(t) == /\ Top(t) = "publish" /\ sent' = sent \cup {cur[t][1]} /\ Goto(t, "publishing")
              /\ UNCHANGED <<free, open, lock, cur, calls, replies>>
Published(t) == /\ Top(t) = "publishing" /\ Return(t) /\ UNCHANGED <<free, open, sent, lock, calls, replies>>
Match(i) == {k \in DOMAIN open : IdOf(open[k]) = i}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Take(t) == /\ Top(t) = "take" /\ lock' = None
           /\ IF Match(cur[t][1]) = {} THEN Return(t) /\ UNCHANGED open
              ELSE LET k == Least(Match(cur[t][1])) IN
                   /\ open' = SubSeq(open, 1, k - 1) \o SubSeq(open, k + 1, Len(open))
                   /\ pc' = [pc EXCEPT ![t][1] = "callback"] /\ cur' = [cur EXCEPT ![t][1] = open[k]]
           /\ UNCHANGED <<free, sent, calls, replies>>
Callback(t) == /\ Top(t) = "callback" /\ calls' = [calls EXCEPT ![cur[t][1]] = @ + 1] /\ Goto(t, "incall")
               /\ UNCHANGED <<free, open, sent, lock, cur, replies>>
CallDone(t) == /\ Top(t) = "incall" /\ Return(t) /\ UNCHANGED <<free, open, sent, lock, calls, replies>>
Step(t) == Lock(t) \/ Add(t) \/ Publish(t) \/ Published(t) \/ Take(t) \/ Callback(t) \/ CallDone(t)
Next == \E t \in Threads : BeginRequest(t) \/ BeginReply(t) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
\* ----
OnceAtMost == \A g \in Tags : calls[g] <= 1
OpenOnce == Cardinality({open[i] : i \in DOMAIN open}) = Len(open)
NotCalledWhileOpen == \A i \in DOMAIN open : calls[open[i]] = 0
NoDeadlock == (\E t \in Threads : Len(pc[t]) > 1) => ENABLED (\E t \in Threads : Step(t))
AllReturn == \A t \in Threads : (Len(pc[t]) > 1) ~> (Len(pc[t]) = 1)
==============================================================================
