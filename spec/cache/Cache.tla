--------------------------------- MODULE Cache ---------------------------------
(* Cache listeners: the latest event, counted.                                  *)
(*   obj   objects: sequence of their values                                    *)
(*   han   handle -> object   (shared pointers held by the harness)             *)
(*   last  object of the latest event, 0 if there has been none                 *)
(*   n     events received                                                      *)
(*   lo,hi bounds for the time spent copying                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [obj |-> <<>>, han |-> <<>>, last |-> 0, n |-> 0, lo |-> 0, hi |-> 0]
Obj(s, v) == [s EXCEPT !.obj = Append(@, v)]
Hold(s, h, o) == [s EXCEPT !.han = (h :> o) @@ @]
\* an event by reference is copied, one by pointer is shared
Receive(s, v, lo, hi) == [Obj(s, v) EXCEPT !.last = Len(s.obj) + 1, !.n = @ + 1, !.lo = @ + lo, !.hi = @ + hi]
Share(s, o) == [s EXCEPT !.last = o, !.n = @ + 1]
================================================================================
