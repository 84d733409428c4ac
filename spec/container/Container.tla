------------------------------ MODULE Container ------------------------------
(* The container of an application as its users see it.                       *)
(*   reg      kind -> sequence of the attached objects (kinds: 0 services,    *)
(*            1 function, 2 service, 3 publication, 4 subscription statistics)*)
(*   running  between start and stop                                          *)
(*   n        statistics object -> <<times started, times stopped>>           *)
(* Service i owns the service statistics object i.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == 0..4
Fresh(c) == [reg |-> [k \in Kinds |-> <<>>], running |-> FALSE, n |-> <<>>]
N(s, o) == IF o \in DOMAIN s.n THEN s.n[o] ELSE <<0, 0>>
Count(q, o) == Cardinality({i \in DOMAIN q : q[i] = o})
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Without(q, o) == IF Count(q, o) = 0 THEN q
                 ELSE LET i == Least({i \in DOMAIN q : q[i] = o}) IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Start1(s, o) == [s EXCEPT !.n = (o :> <<N(s, o)[1] + 1, N(s, o)[2]>>) @@ @]
Stat(k) == IF k = 0 THEN 2 ELSE k
Attach(s, k, o) == LET a == IF k = 0 THEN [s EXCEPT !.reg[0] = Append(@, o), !.reg[2] = Append(@, o)]
                            ELSE [s EXCEPT !.reg[k] = Append(@, o)]
                   IN IF s.running THEN Start1(a, o) ELSE a
Detach(s, k, o) == IF k = 0 THEN [s EXCEPT !.reg[0] = Without(@, o), !.reg[2] = Without(@, o)]
                   ELSE [s EXCEPT !.reg[k] = Without(@, o)]
All(s) == s.reg[1] \o s.reg[2] \o s.reg[3] \o s.reg[4]
Objects(s) == {All(s)[i] : i \in DOMAIN All(s)}
Start(s) == [s EXCEPT !.running = TRUE,
                      !.n = [o \in Objects(s) |-> <<N(s, o)[1] + Count(All(s), o), N(s, o)[2]>>] @@ @]
Stop(s) == [s EXCEPT !.running = FALSE,
                     !.n = [o \in Objects(s) |-> <<N(s, o)[1], N(s, o)[2] + Count(All(s), o)>>] @@ @]
SameBag(q, r) == Len(q) = Len(r) /\ \A i \in DOMAIN q : Count(q, q[i]) = Count(r, q[i])
==============================================================================
