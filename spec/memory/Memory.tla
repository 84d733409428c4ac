-------------------------------- MODULE Memory --------------------------------
(* The queue-based in-memory middleware as its users see it.                  *)
(*   q      published events not yet taken by the poller, oldest first        *)
(*   hand   the event being delivered (<<>> or <<v>>), at: next listener      *)
(*   inl    a listener is being called                                        *)
(*   disc   events discarded                                                  *)
(*   run    the poller may take events                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [q |-> <<>>, hand |-> <<>>, at |-> 0, inl |-> FALSE, disc |-> 0, run |-> FALSE, on |-> FALSE, gone |-> FALSE,
             lim |-> c.lim, conc |-> c.conc, discard |-> c.discard, nl |-> c.nl]
\* the lock-free queue allocates whole blocks, so that it may hold more than asked for
Full(s) == s.lim > 0 /\ Len(s.q) >= s.lim
HasRoom(s) == ~Full(s) \/ s.conc = 1
Put(s, v) == [s EXCEPT !.q = Append(@, v)]
DropOne(s) == [s EXCEPT !.q = Tail(@), !.disc = @ + 1]
CanTake(s) == s.run /\ s.hand = <<>> /\ s.q # <<>>
Take(s) == [s EXCEPT !.hand = <<s.q[1]>>, !.q = Tail(@), !.at = 0]
CanServe(s, l, v) == s.hand = <<v>> /\ s.at = l /\ ~s.inl
Serve(s) == [s EXCEPT !.inl = TRUE]
Served(s) == [s EXCEPT !.inl = FALSE, !.at = @ + 1, !.hand = IF s.at + 1 = s.nl THEN <<>> ELSE @]
Quiet(s) == s.hand = <<>>
=============================================================================
