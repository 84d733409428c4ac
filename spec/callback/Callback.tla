------------------------------- MODULE Callback -------------------------------
(* Request/reply handlers as their users see them.                            *)
(*   open  outstanding requests, oldest first: [id, tag]                      *)
(*   exp   caller -> callback it has to call now (0: none)                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [open |-> <<>>, exp |-> <<>>]
Matches(s, id) == {i \in DOMAIN s.open : s.open[i].id = id}
Add(s, id, tag) == [s EXCEPT !.open = Append(@, [id |-> id, tag |-> tag])]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* a reply belongs to the oldest outstanding request it matches
TakeReply(s, t, id) == LET i == Least(Matches(s, id))
                  IN [s EXCEPT !.open = Without(@, i), !.exp = (t :> s.open[i].tag) @@ @]
Expected(s, t) == IF t \in DOMAIN s.exp THEN s.exp[t] ELSE 0
Called(s, t) == [s EXCEPT !.exp[t] = 0]
==============================================================================
