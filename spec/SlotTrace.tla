----------------------------- MODULE SlotTrace -----------------------------
(* Where the real server keeps keys: every line of TRACE is a key k (its bytes) and the slots s in which it was found.   *)
EXTENDS Slots, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Log)
        /\ \/ Log[i].s = <<Slot(Log[i].k)>>
           \/ Log[i].s # <<Slot(Log[i].k)>> /\ PrintT("MISMATCH " \o ToJson([i |-> i, exp |-> Slot(Log[i].k)])) /\ FALSE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
