-------------------------------- MODULE Ring --------------------------------
(* The ring buffer as its users see it.                                       *)
(* Positions are offsets from the position the ring starts at: the first      *)
(* event is number 1.  A position is claimed by a producer, published with    *)
(* the identity of the event written there, handled by each consumer and      *)
(* released when the consumer has finished with it.                           *)
(*   cl       highest claimed position                                        *)
(*   dat      published position -> identity of the event                     *)
(*   lo, hi   per consumer: position it has certainly / at most released      *)
(*   alerted  the barrier the manual waiters use                              *)
(*   last     time of the last publication, at most (where it is recorded)    *)
(*   pr       per consumer: state of its event processor                      *)
(* Configuration c: n slots, multi(ple producers), k consumers, deps, gating, *)
(* weak (observations may lag behind), startThrow/stopThrow                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(q) == {q[i] : i \in DOMAIN q}
Min2(a, b) == IF a < b THEN a ELSE b

NoProc == [act |-> -1, up |-> FALSE, st |-> 0, nxt |-> 1, inev |-> 0, id |-> 0, cont |-> FALSE,
           low |-> 0, halted |-> FALSE, over |-> FALSE]
Fresh(c) == [c |-> c, cl |-> 0, dat |-> <<>>, lo |-> [i \in 1..c.k |-> 0], hi |-> [i \in 1..c.k |-> 0],
             gate |-> Range(c.gating), alerted |-> FALSE, sq |-> 0, last |-> 0, pr |-> [i \in 1..c.k |-> NoProc]]

Published(s, p) == p \in DOMAIN s.dat
(* last position of the gap-free run of published positions that begins at p (p-1 if there is none) *)
RECURSIVE Contig(_, _)
Contig(s, p) == IF p \notin DOMAIN s.dat THEN p - 1 ELSE Contig(s, p + 1)

(* ------------------------------------------------------------- claims (C01, C02) *)
GateOf(s, v) == IF s.gate = {} THEN s.cl ELSE Min2(s.cl, MinOf({v[g] : g \in s.gate}))
HiOf(s) == IF s.c.noop = 1 THEN [i \in 1..s.c.k |-> Contig(s, 1)] ELSE s.hi
MayClaim(s, n) == s.cl + n - s.c.n <= GateOf(s, HiOf(s))         \* room, as far as anybody can tell
MayBeFull(s, n) == s.cl + n - s.c.n > GateOf(s, s.lo)         \* no room that all consumers have given back
Claim(s, n) == [s EXCEPT !.cl = @ + n]

(* --------------------------------------------------------------- publication *)
Put(s, p, id) == [s EXCEPT !.dat = (p :> id) @@ @]
RECURSIVE PutAll(_, _, _, _)
PutAll(s, p, h, id) == IF p > h THEN s ELSE PutAll(Put(s, p, id), p + 1, h, id + 1)

(* --------------------------------------------------------------- availability (C04, C05) *)
Up(s, D, v) == MinOf({v[d] : d \in D})
Avail(s, D, v, p) == IF D = {} THEN Contig(s, p) ELSE Min2(Contig(s, p), Up(s, D, v))
DepsOf(s, k) == Range(s.c.deps[k])
AvailHi(s, k) == Avail(s, DepsOf(s, k), s.hi, s.pr[k].nxt)
AvailLo(s, k) == Avail(s, DepsOf(s, k), s.lo, s.pr[k].nxt)

Release(s, k, p) == [s EXCEPT !.lo[k] = p, !.hi[k] = p]

(* --------------------------------------------------------------- event processors (C03, C05, C06) *)
(* st: 0 not begun, 1 begun, 2 start hook called, 21 start hook failed, 3 shut down, 31 shutdown hook failed *)
P(s, k) == s.pr[k]
Enter(s, k, t) == [s EXCEPT !.pr[k] = [NoProc EXCEPT !.act = t, !.nxt = s.pr[k].nxt]]
SetUp(s, k) == [s EXCEPT !.pr[k].up = TRUE, !.pr[k].st = 1]
Leave(s, k) == [s EXCEPT !.pr[k] = [NoProc EXCEPT !.nxt = s.pr[k].nxt], !.lo[k] = s.hi[k]]
CanStart(s, k, t) == P(s, k).act = t /\ P(s, k).st = 1
Start(s, k) == [s EXCEPT !.pr[k].st = IF s.c.startThrow = k THEN 21 ELSE 2,
                         !.pr[k].low = AvailLo(s, k)]
StartFailed(s, k) == [s EXCEPT !.pr[k].st = 2]
CanShut(s, k, t) == P(s, k).act = t /\ P(s, k).st = 2 /\ P(s, k).inev = 0 /\ P(s, k).halted
                    /\ ~P(s, k).cont
Shut(s, k) == [s EXCEPT !.pr[k].st = IF s.c.stopThrow = k THEN 31 ELSE 3]
(* event p with content id is handed over; eob says whether it is the last one found available *)
CanHandle(s, k, t, p, id, eob, tag) ==
  /\ P(s, k).act = t /\ P(s, k).st = 2 /\ P(s, k).inev = 0 /\ (s.c.weak = 1 \/ ~P(s, k).over)
  /\ p = P(s, k).nxt
  /\ p <= AvailHi(s, k)
  /\ s.dat[p] = id
  /\ IF eob THEN (s.c.weak = 1 \/ p >= P(s, k).low) ELSE p < AvailHi(s, k)
  /\ DepsOf(s, k) = {} \/ tag = id * 10 + 1
Handle(s, k, p, id) == [s EXCEPT !.pr[k].inev = 1, !.pr[k].id = id, !.lo[k] = IF s.pr[k].cont THEN @ ELSE p - 1]
CanEnd(s, k, t, p, id) == /\ P(s, k).act = t /\ P(s, k).inev = 1 /\ p = P(s, k).nxt /\ P(s, k).id = id
EndOk(s, k, p, eob) ==
  LET s1 == [s EXCEPT !.pr[k].inev = 0, !.pr[k].nxt = p + 1, !.pr[k].cont = ~eob, !.hi[k] = p,
                      !.pr[k].over = @ \/ (eob /\ s.pr[k].halted)]
  IN IF eob THEN [s1 EXCEPT !.pr[k].low = AvailLo(s1, k)] ELSE s1
EndThrow(s, k) == [s EXCEPT !.pr[k].inev = 2]
CanExc(s, k, t, p, id) == /\ P(s, k).act = t /\ P(s, k).inev = 2 /\ p = P(s, k).nxt /\ P(s, k).id = id
Exc(s, k, p) ==
  LET s1 == [s EXCEPT !.pr[k].inev = 0, !.pr[k].nxt = p + 1, !.pr[k].cont = FALSE, !.hi[k] = p,
                      !.pr[k].over = @ \/ s.pr[k].halted]
  IN [s1 EXCEPT !.pr[k].low = AvailLo(s1, k)]
(* may everything be at rest: nothing to handle, nobody being halted *)
AtRest(s, k) ==
  \/ s.pr[k].act = -1
  \/ s.c.noop = 1 /\ ~s.pr[k].halted
  \/ /\ ~s.pr[k].halted /\ s.pr[k].st = 2 /\ s.pr[k].inev = 0
     /\ AvailHi(s, k) < s.pr[k].nxt
=============================================================================
