------------------------------- MODULE Emitter -------------------------------
(* Event emitters as their users see them.                                    *)
(*   regs  the listeners registered, in registration order: [tag, ev, name,   *)
(*         once, id, n (position in the order of all registrations), proc,    *)
(*         disc (processed and discarded events)]                             *)
(*   em    emissions in progress: caller -> [ev, v, must, may, done, last,    *)
(*         mine]: listeners that have to be called, that may be called, that  *)
(*         have been called, the position of the last one, and one-shot       *)
(*         listeners this emission has taken                                  *)
(* Configuration: kind (0 one listener only, 1 any number with unique names,  *)
(* 2 thread safe), cont (statistics go to a container), sub (used through a   *)
(* subscriber, which refers to listeners by name).                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoEm == [on |-> FALSE, ev |-> 0, v |-> 0, must |-> {}, may |-> {}, done |-> {}, last |-> 0, mine |-> {}]
Fresh(c) == [kind |-> c.kind, cont |-> c.cont, sub |-> c.sub, regs |-> <<>>, em |-> <<>>, n |-> 0]
Range(q) == {q[i] : i \in DOMAIN q}
Ids(s) == {r.id : r \in Range(s.regs)}
Names(s) == {r.name : r \in {x \in Range(s.regs) : ~x.once}}
ById(s, id) == CHOOSE r \in Range(s.regs) : r.id = id
ByName(s, n) == CHOOSE r \in Range(s.regs) : ~r.once /\ r.name = n
(* does the emitter take another listener, called n *)
Accepts(s, n) == CASE s.kind = 2 -> TRUE [] s.kind = 1 -> n \notin Names(s) [] OTHER -> s.regs = <<>>
(* may a registration that is accepted / refused answer with this id *)
IdOk(s, n, id) == IF Accepts(s, n) THEN id \notin Ids(s)
                  ELSE IF s.kind = 1 \/ n \in Names(s) THEN id = ByName(s, n).id
                  ELSE id \notin Ids(s)
Add(s, tag, ev, n, once, id) ==
  LET r == [tag |-> tag, ev |-> ev, name |-> n, once |-> once, id |-> id, n |-> s.n + 1, proc |-> 0, disc |-> 0]
  IN [s EXCEPT !.regs = Append(@, r), !.n = @ + 1,
               !.em = [t \in DOMAIN s.em |-> IF s.em[t].on /\ s.em[t].ev = ev
                                             THEN [s.em[t] EXCEPT !.may = @ \cup {r}] ELSE s.em[t]]]
(* forget the listeners whose tags are in T *)
Without(s, T) ==
  [s EXCEPT !.regs = SelectSeq(@, LAMBDA r : r.tag \notin T),
            !.em = [t \in DOMAIN s.em |-> [s.em[t] EXCEPT !.must = @ \ T]]]
Begin(s, t, ev, v) ==
  LET L == {r \in Range(s.regs) : r.ev = ev}
  IN [s EXCEPT !.em = (t :> [NoEm EXCEPT !.on = TRUE, !.ev = ev, !.v = v, !.may = L,
                                         !.must = {r.tag : r \in L}]) @@ @]
Live(s, tag) == \E r \in Range(s.regs) : r.tag = tag
(* a one-shot listener is taken by one emission *)
Takeable(s, t) == {r \in s.em[t].may : r.once /\ Live(s, r.tag)}
TakeOnce(s, t, r) == LET s1 == Without(s, {r.tag}) IN [s1 EXCEPT !.em[t].mine = @ \cup {r.tag}]
CanHit(s, t, tag, v) ==
  /\ t \in DOMAIN s.em /\ s.em[t].on /\ s.em[t].v = v
  /\ \E r \in s.em[t].may : /\ r.tag = tag /\ r.n > s.em[t].last
                            /\ r.once => tag \in s.em[t].mine
  /\ tag \notin s.em[t].done
RECURSIVE Bump(_, _, _)
Bump(q, tag, dd) == IF q = <<>> THEN <<>>
  ELSE <<IF q[1].tag = tag THEN (IF dd THEN [q[1] EXCEPT !.disc = @ + 1] ELSE [q[1] EXCEPT !.proc = @ + 1]) ELSE q[1]>>
       \o Bump(Tail(q), tag, dd)
Hit(s, t, tag) == LET r == CHOOSE x \in s.em[t].may : x.tag = tag IN
  [s EXCEPT !.em[t].done = @ \cup {tag}, !.em[t].last = r.n, !.regs = Bump(@, tag, FALSE)]
CanEnd(s, t) == s.em[t].must \subseteq s.em[t].done /\ s.em[t].mine \subseteq s.em[t].done
End(s, t) == [s EXCEPT !.em[t] = NoEm]
Discard(s, ev) == [s EXCEPT !.regs = [i \in DOMAIN s.regs |-> IF s.regs[i].ev = ev
                                         THEN [s.regs[i] EXCEPT !.disc = @ + 1] ELSE s.regs[i]]]
HasStats(s, r) == ~r.once /\ (s.kind = 2 \/ s.cont = 1)
StatsOf(s, r) == <<1, r.proc, r.disc, s.cont>>
Attached(s) == IF s.cont = 0 THEN 0 ELSE Cardinality({i \in DOMAIN s.regs : ~s.regs[i].once})
==============================================================================
