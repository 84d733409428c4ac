--------------------------------- MODULE Mux ---------------------------------
(* The data multiplexer as its users see it: one publisher, any number of     *)
(* subscribers, each with a thread of its own and its listeners.              *)
(*   vals   accepted events in order, npub: how many of them are published    *)
(*   dropped  publications refused because the ring was full                  *)
(*   S      subscriber -> [nxt: first event it has not handled, low: newest   *)
(*          event that was published when it was last free (so what it        *)
(*          handles next is at least as new), lo/hi: bounds of what it has    *)
(*          released, at: delivery in progress, L: listeners with counts]     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoAt == [on |-> FALSE, k |-> 0, rest |-> <<>>, cur |-> -1]
Fresh(c) == [size |-> c.size, weak |-> c.weak, vals |-> <<>>, npub |-> 0, dropped |-> 0, gone |-> FALSE, S |-> <<>>]
Max(a, b) == IF a > b THEN a ELSE b
Claimed(s) == Len(s.vals)
\* how far a subscriber may be / must be
HiRel(s, u) == IF s.S[u].L = <<>> THEN s.npub ELSE s.S[u].hi
CanAccept(s) == \A u \in DOMAIN s.S : Claimed(s) - HiRel(s, u) < s.size
Accept0(s, v) == [s EXCEPT !.vals = Append(@, v),
                           !.S = [u \in DOMAIN s.S |-> [s.S[u] EXCEPT !.lo = Max(@, Claimed(s) + 1 - s.size)]]]
Publish0(s) == [s EXCEPT !.npub = Claimed(s)]
\* (under weak memory order the publisher and the subscribers may see each other's progress late)
CanDrop(s) == \E u \in DOMAIN s.S : Claimed(s) - (IF s.weak = 1 THEN 0 ELSE s.S[u].lo) >= s.size
Drop(s) == [s EXCEPT !.dropped = @ + 1]
\* a new subscriber begins with the next event
Join(s, u) == [s EXCEPT !.S = (u :> [nxt |-> Claimed(s) + 1, low |-> Claimed(s), lo |-> Claimed(s), hi |-> Claimed(s),
                                     at |-> NoAt, L |-> <<>>]) @@ @]
\* subscriber u begins to deliver event k: older ones it has not handled are skipped
CanTake(s, u, k) == /\ ~s.S[u].at.on /\ s.S[u].L # <<>>
                    /\ k \in Max(s.S[u].nxt, IF s.weak = 1 THEN 0 ELSE s.S[u].low)..s.npub
Take(s, u, k) ==
  [s EXCEPT !.S[u] = [@ EXCEPT !.nxt = k + 1, !.lo = Max(@, s.S[u].nxt - 1), !.hi = s.S[u].nxt - 1,
                               !.at = [on |-> TRUE, k |-> k, rest |-> [i \in DOMAIN s.S[u].L |-> s.S[u].L[i].l], cur |-> -1],
                               !.L = [i \in DOMAIN s.S[u].L |-> [s.S[u].L[i] EXCEPT !.disc = @ + (k - s.S[u].nxt)]]]]
CanServe(s, u, l, v) == s.S[u].at.on /\ s.S[u].at.cur = -1 /\ s.S[u].at.rest[1] = l /\ s.vals[s.S[u].at.k] = v
Serve(s, u, l) ==
  [s EXCEPT !.S[u] = [@ EXCEPT !.at.cur = l, !.at.rest = Tail(@),
                               !.L = [i \in DOMAIN s.S[u].L |-> IF s.S[u].L[i].l = l THEN [s.S[u].L[i] EXCEPT !.proc = @ + 1]
                                                                ELSE s.S[u].L[i]]]]
CanServed(s, u, l, v) == s.S[u].at.on /\ s.S[u].at.cur = l /\ s.vals[s.S[u].at.k] = v
Served(s, u) ==
  IF s.S[u].at.rest # <<>> THEN [s EXCEPT !.S[u].at.cur = -1]
  ELSE [s EXCEPT !.S[u] = [@ EXCEPT !.at = NoAt, !.low = s.npub, !.hi = s.S[u].at.k]]
\* a subscriber with listeners that is at rest has delivered the newest event
Rest(s) == \A u \in DOMAIN s.S : ~s.S[u].at.on /\ (s.S[u].L = <<>> \/ s.S[u].nxt = Claimed(s) + 1)
Quiet(s) == \A u \in DOMAIN s.S : ~s.S[u].at.on
Reg(s, u, l) == [s EXCEPT !.S[u].L = Append(@, [l |-> l, proc |-> 0, disc |-> 0]), !.S[u].nxt = Claimed(s) + 1,
                          !.S[u].low = Claimed(s), !.S[u].hi = Claimed(s)]
Unreg(s, u, l) == [s EXCEPT !.S[u].L = SelectSeq(@, LAMBDA x : x.l # l)]
Stats(s, u, l) == LET i == CHOOSE i \in DOMAIN s.S[u].L : s.S[u].L[i].l = l
                  IN <<s.S[u].L[i].proc, s.S[u].L[i].disc>>
==============================================================================
