--------------------------------- MODULE Loop ---------------------------------
(* Step-by-step model of an event loop: publishers claim, write and publish   *)
(* slots of the ring without waiting; the loop's thread handles runs of       *)
(* published slots and releases a run at its end; one thread starts, stops    *)
(* and finally destroys the loop, in any order and redundantly.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Pubs, Each, Size, Controls
VARIABLES cursor, pubd, slot, released,          \* the ring; released: the loop's sequence, which gates the ring
          pp, sent, mine, order, dropped,         \* publishers
          tp, next, avail, out,                   \* the loop's thread
          running, alert, started, cp, left       \* flags and the controlling thread
ring == <<cursor, pubd, slot, released>>
pubv == <<pp, sent, mine, order, dropped>>
thr == <<tp, next, avail, out>>
ctl == <<started, cp, left>>
vars == <<ring, pubv, thr, running, alert, ctl>>
Init == /\ cursor = 0 /\ pubd = {} /\ slot = [i \in 0..(Size - 1) |-> <<>>] /\ released = 0
        /\ pp = [p \in Pubs |-> "idle"] /\ sent = [p \in Pubs |-> 0] /\ mine = [p \in Pubs |-> 0]
        /\ order = <<>> /\ dropped = {}
        /\ tp = "none" /\ next = 1 /\ avail = 0 /\ out = <<>>
        /\ running = FALSE /\ alert = FALSE /\ started = FALSE /\ cp = "idle" /\ left = Controls
\* ---- publishers
Claim(p) ==
  /\ pp[p] = "idle" /\ sent[p] < Each /\ sent' = [sent EXCEPT ![p] = @ + 1]
  /\ IF cursor - released >= Size
     THEN dropped' = dropped \cup {<<p, sent[p] + 1>>} /\ UNCHANGED <<cursor, pp, mine, order>>
     ELSE /\ cursor' = cursor + 1 /\ mine' = [mine EXCEPT ![p] = cursor + 1]
          /\ order' = Append(order, <<p, sent[p] + 1>>) /\ pp' = [pp EXCEPT ![p] = "write"]
          /\ UNCHANGED dropped
  /\ UNCHANGED <<pubd, slot, released, thr, running, alert, ctl>>
Write(p) == /\ pp[p] = "write" /\ pp' = [pp EXCEPT ![p] = "publish"]
            /\ slot' = [slot EXCEPT ![mine[p] % Size] = <<p, sent[p]>>]
            /\ UNCHANGED <<cursor, pubd, released, sent, mine, order, dropped, thr, running, alert, ctl>>
Publish(p) == /\ pp[p] = "publish" /\ pp' = [pp EXCEPT ![p] = "idle"] /\ pubd' = pubd \cup {mine[p]}
              /\ UNCHANGED <<cursor, slot, released, sent, mine, order, dropped, thr, running, alert, ctl>>
\* ---- the loop's thread
KeepT == UNCHANGED <<cursor, pubd, slot, pubv, ctl>>
Begin == tp = "begin" /\ running' = TRUE /\ tp' = "clear" /\ UNCHANGED <<released, next, avail, out, alert>> /\ KeepT
Clear == tp = "clear" /\ alert' = FALSE /\ tp' = "recheck" /\ UNCHANGED <<released, next, avail, out, running>> /\ KeepT
Recheck == /\ tp = "recheck" /\ tp' = "wait" /\ alert' = (alert \/ ~running) /\ next' = released + 1
           /\ UNCHANGED <<released, avail, out, running>> /\ KeepT
Contiguous == CHOOSE n \in 0..cursor : (\A i \in 1..n : i \in pubd) /\ (n = cursor \/ n + 1 \notin pubd)
Wait == /\ tp = "wait"
        /\ \/ alert /\ ~running /\ tp' = "leave" /\ UNCHANGED <<avail>>
           \/ ~alert /\ Contiguous >= next /\ avail' = Contiguous /\ tp' = "handle"
        /\ UNCHANGED <<released, next, out, running, alert>> /\ KeepT
Handle == /\ tp = "handle" /\ next <= avail
          /\ out' = Append(out, slot[next % Size]) /\ next' = next + 1
          /\ UNCHANGED <<tp, released, avail, running, alert>> /\ KeepT
Release == /\ tp = "handle" /\ next > avail /\ released' = avail /\ tp' = "wait"
           /\ UNCHANGED <<next, avail, out, running, alert>> /\ KeepT
Leave == tp = "leave" /\ running' = FALSE /\ tp' = "end" /\ UNCHANGED <<released, next, avail, out, alert>> /\ KeepT
Thread == Begin \/ Clear \/ Recheck \/ Wait \/ Handle \/ Release \/ Leave
\* ---- control
KeepC == UNCHANGED <<ring, pubv, next, avail, out>>
Start == /\ cp = "idle" /\ left > 0 /\ left' = left - 1
         /\ IF started THEN UNCHANGED <<started, tp, cp>> ELSE started' = TRUE /\ tp' = "begin" /\ cp' = "starting"
         /\ UNCHANGED <<running, alert>> /\ KeepC
Started == cp = "starting" /\ running /\ cp' = "idle" /\ UNCHANGED <<running, alert, started, tp, left>> /\ KeepC
Stop == /\ cp = "idle" /\ left > 0 /\ left' = left - 1
        /\ IF started THEN running' = FALSE /\ cp' = "alerting" ELSE UNCHANGED <<running, cp>>
        /\ UNCHANGED <<alert, started, tp>> /\ KeepC
Alert == /\ cp \in {"alerting", "finalerting"} /\ alert' = TRUE
         /\ cp' = IF cp = "alerting" THEN "joining" ELSE "ending"
         /\ UNCHANGED <<running, started, tp, left>> /\ KeepC
Joined == /\ cp = "joining" /\ tp = "end" /\ tp' = "none" /\ started' = FALSE /\ cp' = "idle"
          /\ UNCHANGED <<running, alert, left>> /\ KeepC
Destroy == /\ cp = "idle" /\ left = 0
           /\ IF started THEN running' = FALSE /\ cp' = "finalerting" ELSE cp' = "gone" /\ UNCHANGED running
           /\ UNCHANGED <<alert, started, tp, left>> /\ KeepC
Ended == /\ cp = "ending" /\ tp = "end" /\ tp' = "none" /\ cp' = "gone"
         /\ UNCHANGED <<running, alert, started, left>> /\ KeepC
Control == Start \/ Started \/ Stop \/ Alert \/ Joined \/ Destroy \/ Ended
Next == (\E p \in Pubs : Claim(p) \/ Write(p) \/ Publish(p)) \/ Thread \/ Control
Spec == Init /\ [][Next]_vars /\ WF_vars(Thread) /\ WF_vars(Started \/ Alert \/ Joined \/ Ended)
             /\ \A p \in Pubs : WF_vars(Write(p)) /\ WF_vars(Publish(p))
\* ---- what users rely on
InOrder == out = SubSeq(order, 1, Len(out))                    \* each accepted event once, in order, intact
NoOverwrite == cursor - released <= Size
Accounted == \A p \in Pubs : \A k \in 1..sent[p] :
               (<<p, k>> \in dropped) # (\E i \in DOMAIN order : order[i] = <<p, k>>)
Quiet == cp \in {"idle", "gone"} /\ (cp = "gone" \/ ~started) => tp = "none"
Returns == (cp \in {"starting", "alerting", "joining", "finalerting", "ending"}) ~> (cp \in {"idle", "gone"})
EventuallyOut == (cp = "idle" /\ started /\ left = 0) ~> (cp # "idle" \/ Len(out) = Len(order))
===============================================================================
