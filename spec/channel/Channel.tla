-------------------------------- MODULE Channel --------------------------------
(* Middleware channels: events become messages, messages become events.        *)
(*   pipes events go through a pipeline                                        *)
(*   wire  message -> event it encodes                                          *)
(*   did   thread -> event its pending call has passed on, 0 if none            *)
(*   q     channel -> events between publication and reception (pipelines)      *)
(*   f     channel, thread -> events received there, but not forwarded yet      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [pipes |-> c.pipes = 1, did |-> <<>>, wire |-> <<>>, q |-> <<>>, f |-> <<>>]
At(g, k) == IF k \in DOMAIN g THEN g[k] ELSE <<>>
Put(g, k, v) == (k :> Append(At(g, k), v)) @@ g
Pop(g, k) == [g EXCEPT ![k] = Tail(@)]
First(g, k, v) == At(g, k) # <<>> /\ Head(At(g, k)) = v
Sent(s, m, e) == [s EXCEPT !.wire = (m :> e) @@ @]
Published(s, k, e) == [s EXCEPT !.q = Put(@, k, e)]
Received(s, k, t) == [s EXCEPT !.f = Put(@, <<k, t>>, Head(At(s.q, k))), !.q = Pop(@, k)]
Forwarded(s, k, t) == [s EXCEPT !.f = Pop(@, <<k, t>>)]
Settled(s) == (\A k \in DOMAIN s.q : s.q[k] = <<>>) /\ (\A k \in DOMAIN s.f : s.f[k] = <<>>)
================================================================================
