------------------------------- MODULE Waiting -------------------------------
(* Waiting on a barrier and running / halting an event processor, step by     *)
(* step: the wait strategy's mutex, condition variable and (for the lite      *)
(* strategy) signal flag; the alert flag; the processor's two flags.          *)
(* Strategy "blocking": test under the mutex, sleep, signal under the mutex.  *)
(* Strategy "lite": signal only if somebody announced that it sleeps.         *)
(* Strategy "busy": no sleeping.                                              *)
EXTENDS Integers, TLC
CONSTANTS Strategy, Events, Halts, Runs
VARIABLES cursor, mutex, sleeping, flag, alerted, running, active,
          wpc, handled, runs,    \* the processor thread
          ppc,                   \* the producer
          hpc, halts             \* the controlling thread (halt)
vars == <<cursor, mutex, sleeping, flag, alerted, running, active, wpc, handled, runs, ppc, hpc, halts>>
Init == /\ cursor = 0 /\ mutex = "free" /\ sleeping = FALSE /\ flag = FALSE /\ alerted = FALSE
        /\ running = FALSE /\ active = FALSE /\ wpc = "idle" /\ handled = 0 /\ runs = Runs
        /\ ppc = "pub" /\ hpc = "wait" /\ halts = Halts
W(l) == wpc' = l
UnW == UNCHANGED <<ppc, hpc, halts>>
(* ---- processor *)
Run == /\ wpc = "idle" /\ runs > 0 /\ hpc = "wait" /\ runs' = runs - 1 /\ ~active /\ active' = TRUE /\ W("up")
       /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, running, handled>> /\ UnW
RunUp == /\ wpc = "up" /\ running' = TRUE /\ W("clear")
         /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, active, handled, runs>> /\ UnW
ClearAlert == /\ wpc = "clear" /\ alerted' = FALSE /\ W("recheck")
              /\ UNCHANGED <<cursor, mutex, sleeping, flag, running, active, handled, runs>> /\ UnW
Recheck == /\ wpc = "recheck" /\ W("check") /\ alerted' = IF running THEN alerted ELSE TRUE
           /\ UNCHANGED <<cursor, mutex, sleeping, flag, running, active, handled, runs>> /\ UnW
Check == /\ wpc = "check" /\ W(IF alerted THEN "alert" ELSE "test0")
         /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, running, active, handled, runs>> /\ UnW
Test0 == /\ wpc = "test0"
         /\ W(IF cursor > handled THEN "batch" ELSE IF Strategy = "busy" THEN "check" ELSE "lock")
         /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, running, active, handled, runs>> /\ UnW
Lock == /\ wpc = "lock" /\ mutex = "free" /\ mutex' = "w" /\ W(IF Strategy = "lite" THEN "announce" ELSE "test")
        /\ UNCHANGED <<cursor, sleeping, flag, alerted, running, active, handled, runs>> /\ UnW
Announce == /\ wpc = "announce" /\ flag' = TRUE /\ W("test")
            /\ UNCHANGED <<cursor, mutex, sleeping, alerted, running, active, handled, runs>> /\ UnW
Test == /\ wpc = "test"
        /\ IF cursor > handled THEN W("batch") /\ mutex' = "free" ELSE W("testalert") /\ UNCHANGED mutex
        /\ UNCHANGED <<cursor, sleeping, flag, alerted, running, active, handled, runs>> /\ UnW
TestAlert == /\ wpc = "testalert"
             /\ IF alerted THEN W("alert") /\ mutex' = "free" /\ UNCHANGED sleeping
                ELSE W("asleep") /\ mutex' = "free" /\ sleeping' = TRUE
             /\ UNCHANGED <<cursor, flag, alerted, running, active, handled, runs>> /\ UnW
Wake == /\ wpc = "asleep" /\ ~sleeping /\ mutex = "free" /\ mutex' = "w"
        /\ W(IF Strategy = "lite" THEN "retest" ELSE "test")
        /\ UNCHANGED <<cursor, sleeping, flag, alerted, running, active, handled, runs>> /\ UnW
Retest == /\ wpc = "retest"
          /\ IF cursor > handled THEN W("batch") /\ mutex' = "free" ELSE W("announce") /\ UNCHANGED mutex
          /\ UNCHANGED <<cursor, sleeping, flag, alerted, running, active, handled, runs>> /\ UnW
Batch == /\ wpc = "batch" /\ handled' = cursor /\ W("check")
         /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, running, active, runs>> /\ UnW
Alert == /\ wpc = "alert" /\ W(IF running THEN "check" ELSE "shut")
         /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, running, active, handled, runs>> /\ UnW
Shut == /\ wpc = "shut" /\ running' = FALSE /\ W("off")
        /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, active, handled, runs>> /\ UnW
Off == /\ wpc = "off" /\ active' = FALSE /\ W("idle")
       /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, running, handled, runs>> /\ UnW
(* ---- signalling, by the producer ("p") and the controller ("h") *)
SigTest == IF Strategy = "lite" THEN flag ELSE TRUE
Pub == /\ ppc = "pub" /\ cursor < Events /\ cursor' = cursor + 1 /\ ppc' = "sig"
       /\ UNCHANGED <<mutex, sleeping, flag, alerted, running, active, wpc, handled, runs, hpc, halts>>
PSig == /\ ppc = "sig"
        /\ IF SigTest /\ Strategy # "busy" THEN ppc' = "lock" ELSE ppc' = "pub"
        /\ flag' = FALSE
        /\ UNCHANGED <<cursor, mutex, sleeping, alerted, running, active, wpc, handled, runs, hpc, halts>>
PNotify == /\ ppc = "lock" /\ mutex = "free" /\ sleeping' = FALSE /\ ppc' = "pub"
           /\ UNCHANGED <<cursor, mutex, flag, alerted, running, active, wpc, handled, runs, hpc, halts>>
HWait == /\ hpc = "wait" /\ halts > 0 /\ running /\ hpc' = "halt" /\ halts' = halts - 1
         /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, running, active, wpc, handled, runs, ppc>>
HStop == /\ hpc = "halt" /\ running' = FALSE /\ hpc' = "alert"
         /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, active, wpc, handled, runs, ppc, halts>>
HAlert == /\ hpc = "alert" /\ alerted' = TRUE /\ hpc' = "sig"
          /\ UNCHANGED <<cursor, mutex, sleeping, flag, running, active, wpc, handled, runs, ppc, halts>>
HSig == /\ hpc = "sig"
        /\ IF SigTest /\ Strategy # "busy" THEN hpc' = "lock" ELSE hpc' = "join"
        /\ flag' = FALSE
        /\ UNCHANGED <<cursor, mutex, sleeping, alerted, running, active, wpc, handled, runs, ppc, halts>>
HNotify == /\ hpc = "lock" /\ mutex = "free" /\ sleeping' = FALSE /\ hpc' = "join"
           /\ UNCHANGED <<cursor, mutex, flag, alerted, running, active, wpc, handled, runs, ppc, halts>>
HJoin == /\ hpc = "join" /\ ~active /\ hpc' = "wait"
         /\ UNCHANGED <<cursor, mutex, sleeping, flag, alerted, running, active, wpc, handled, runs, ppc, halts>>
Proc == Run \/ RunUp \/ ClearAlert \/ Recheck \/ Check \/ Test0 \/ Lock \/ Announce \/ Test \/ TestAlert \/ Wake
        \/ Retest \/ Batch \/ Alert \/ Shut \/ Off
Prod == Pub \/ PSig \/ PNotify
Ctl == HWait \/ HStop \/ HAlert \/ HSig \/ HNotify \/ HJoin
Next == Proc \/ Prod \/ Ctl
Spec == Init /\ [][Next]_vars /\ WF_vars(Proc) /\ WF_vars(Prod) /\ WF_vars(Ctl)
        /\ SF_vars(Lock) /\ SF_vars(Wake) /\ SF_vars(PNotify) /\ SF_vars(HNotify)
HaltEnds == [](hpc = "join" => <>(hpc = "wait"))                       \* a halted run returns
AllHandled == (Runs > Halts) => <>[](handled = Events)                 \* nobody sleeps over an event
NeverAhead == handled <= cursor
=============================================================================
