-------------------------------- MODULE Poller --------------------------------
(* Step-by-step model of the middleware: publishers into a bounded queue, the *)
(* polling thread with its running flag, and one thread that starts, stops    *)
(* and finally destroys the poller, in any order and redundantly.             *)
EXTENDS Memory
CONSTANTS Pubs, Each, Lim, Discard, Controls
VARIABLES s, sent, order, out,       \* abstract middleware; per publisher progress; acceptance order; deliveries
          running, started, tp,      \* flags and the polling thread's place
          cp, left                   \* the controlling thread
vars == <<s, sent, order, out, running, started, tp, cp, left>>
Init == /\ s = Fresh([lim |-> Lim, conc |-> 0, discard |-> Discard, nl |-> 1])
        /\ sent = [p \in Pubs |-> 0] /\ order = <<>> /\ out = <<>>
        /\ running = FALSE /\ started = FALSE /\ tp = "none" /\ cp = "idle" /\ left = Controls
Publish(p) == /\ sent[p] < Each /\ sent' = [sent EXCEPT ![p] = @ + 1]
              /\ LET v == <<p, sent[p] + 1>> IN
                   /\ order' = Append(order, v)
                   /\ IF ~Full(s) THEN s' = Put(s, v)
                      ELSE Discard = 1 /\ s' = Put(DropOne(s), v)
              /\ UNCHANGED <<out, running, started, tp, cp, left>>
\* the polling thread
Keep == UNCHANGED <<sent, order, started, cp, left>>
Begin == tp = "begin" /\ running' = TRUE /\ tp' = "check" /\ UNCHANGED <<s, out>> /\ Keep
Check == tp = "check" /\ tp' = (IF running THEN "pop" ELSE "end") /\ UNCHANGED <<s, out, running>> /\ Keep
Pop == /\ tp = "pop"
       /\ IF s.q # <<>> THEN s' = [s EXCEPT !.hand = <<s.q[1]>>, !.q = Tail(@)] /\ tp' = "serve"
          ELSE tp' = "check" /\ UNCHANGED s       \* the wait for an event timed out
       /\ UNCHANGED <<out, running>> /\ Keep
ServeIt == /\ tp = "serve" /\ out' = Append(out, s.hand[1]) /\ s' = [s EXCEPT !.hand = <<>>] /\ tp' = "check"
           /\ UNCHANGED running /\ Keep
\* the controlling thread
KeepC == UNCHANGED <<s, sent, order, out>>
Start == /\ cp = "idle" /\ left > 0 /\ left' = left - 1
         /\ IF started THEN UNCHANGED <<started, tp, cp>>
            ELSE started' = TRUE /\ tp' = "begin" /\ cp' = "starting"
         /\ UNCHANGED running /\ KeepC
Started == cp = "starting" /\ running /\ cp' = "idle" /\ UNCHANGED <<running, started, tp, left>> /\ KeepC
Stop == /\ cp = "idle" /\ left > 0 /\ left' = left - 1
        /\ IF started THEN running' = FALSE /\ cp' = "joining" ELSE UNCHANGED <<running, cp>>
        /\ UNCHANGED <<started, tp>> /\ KeepC
Joined == /\ cp = "joining" /\ tp = "end" /\ tp' = "none" /\ started' = FALSE /\ cp' = "idle"
          /\ UNCHANGED <<running, left>> /\ KeepC
Destroy == /\ cp = "idle" /\ left = 0 /\ running' = FALSE /\ cp' = "ending"
           /\ UNCHANGED <<started, tp, left>> /\ KeepC
Ended == /\ cp = "ending" /\ tp \in {"none", "end"} /\ cp' = "gone" /\ tp' = "none"
         /\ UNCHANGED <<running, started, left>> /\ KeepC
Control == Start \/ Started \/ Stop \/ Joined \/ Destroy \/ Ended
Thread == Begin \/ Check \/ Pop \/ ServeIt
Next == (\E p \in Pubs : Publish(p)) \/ Control \/ Thread
Spec == Init /\ [][Next]_vars /\ WF_vars(Thread) /\ WF_vars(Started \/ Joined \/ Ended)
\* ----
InSystem == out \o s.hand \o s.q
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF a[1] = b[1] THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))
Ordered == SubSeqOf(InSystem, order)
Accounted == Len(InSystem) + s.disc = Len(order)
NothingLost == Discard = 0 => InSystem = order
Bounded == Lim > 0 => Len(s.q) <= Lim
Stopped == cp \in {"idle", "gone"} /\ ~started => tp = "none" /\ s.hand = <<>>
GoneQuiet == cp = "gone" => tp = "none"
Returns == (cp \in {"starting", "joining", "ending"}) ~> (cp \in {"idle", "gone"})
=============================================================================
