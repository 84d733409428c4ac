-------------------------------- MODULE Stream --------------------------------
(* A sender and a receiver of one stream, whose system calls transfer parts,   *)
(* are interrupted, or fail: design of put (until all is written) and receive  *)
(* (until the end of the stream).                                              *)
EXTENDS Socket
CONSTANTS Msgs, Buf, MaxFaults
VARIABLES s, todo, sp, off, got, rp, faults, sent
vars == <<s, todo, sp, off, got, rp, faults, sent>>
Snd == 1
Rcv == 2
Init == /\ s = [Fresh(<<>>) EXCEPT !.open = {Snd, Rcv}, !.inq = (Snd :> <<>>) @@ (Rcv :> <<>>), !.peer = (Snd :> Rcv) @@ (Rcv :> Snd)]
        /\ todo = Msgs /\ sp = "idle" /\ off = 0 /\ got = <<>> /\ rp = "reading" /\ faults = MaxFaults /\ sent = <<>>
BeginMsg == /\ sp = "idle" /\ todo # <<>> /\ sp' = "writing" /\ off' = 0 /\ UNCHANGED <<s, todo, got, rp, faults, sent>>
Msg == Head(todo)
Write == /\ sp = "writing" /\ off < Len(Msg)
         /\ \E k \in 1..(Len(Msg) - off) :
              /\ Len(Bytes(s, Rcv)) + k <= Buf
              /\ s' = Sent(s, Snd, SubSeq(Msg, off + 1, off + k)) /\ off' = off + k
              /\ sent' = sent \o SubSeq(Msg, off + 1, off + k)
         /\ UNCHANGED <<todo, sp, got, rp, faults>>
Written == /\ sp = "writing" /\ off = Len(Msg) /\ todo' = Tail(todo) /\ sp' = "idle" /\ UNCHANGED <<s, off, got, rp, faults, sent>>
\* a passing error is sat out, another one ends the call with an error
WriteFault == /\ sp = "writing" /\ faults > 0 /\ faults' = faults - 1
              /\ sp' \in {"writing", "failed"} /\ UNCHANGED <<s, todo, off, got, rp, sent>>
End == /\ sp \in {"idle", "failed"} /\ (sp = "idle" => todo = <<>>) /\ sp' = "ended"
       /\ s' = [s EXCEPT !.eof = @ \cup {Rcv}] /\ UNCHANGED <<todo, off, got, rp, faults, sent>>
Read == /\ rp = "reading" /\ Bytes(s, Rcv) # <<>>
        /\ \E k \in 1..Len(Bytes(s, Rcv)) : got' = got \o SubSeq(Bytes(s, Rcv), 1, k) /\ s' = Received(s, Rcv, k)
        /\ UNCHANGED <<todo, sp, off, rp, faults, sent>>
ReadEnd == /\ rp = "reading" /\ Bytes(s, Rcv) = <<>> /\ Rcv \in s.eof /\ rp' = "done" /\ UNCHANGED <<s, todo, sp, off, got, faults, sent>>
ReadFault == /\ rp = "reading" /\ faults > 0 /\ faults' = faults - 1 /\ rp' \in {"reading", "error"}
             /\ UNCHANGED <<s, todo, sp, off, got, sent>>
Next == BeginMsg \/ Write \/ Written \/ WriteFault \/ End \/ Read \/ ReadEnd \/ ReadFault
Spec == Init /\ [][Next]_vars /\ WF_vars(BeginMsg \/ Write \/ Written \/ End) /\ WF_vars(Read \/ ReadEnd)
\* ----
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Conserved == got \o Bytes(s, Rcv) = sent
PrefixOfMessages == IsPrefix(sent, Flat(Msgs))
Complete == (rp = "done" /\ sp = "ended" /\ todo = <<>>) => got = Flat(Msgs)
DoneMeansAll == rp = "done" => got = sent
Finishes == <>(rp \in {"done", "error"} /\ (sp = "ended" \/ rp = "error"))
===============================================================================
