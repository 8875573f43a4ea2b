----------------------------- MODULE SnapTrace -----------------------------
(***************************************************************************)
(* Snapshots taken while clients write.  Every line of TRACE is one        *)
(* snapshot: req/end = when it was asked for and when its stream ended,    *)
(* w = for every write of the run [i |-> when it was sent, r |-> when its  *)
(* reply was back, inc |-> whether the snapshot shows it].  Times are      *)
(* positions in the order in which the drivers saw these events happen.    *)
(*                                                                         *)
(* A point-in-time image exists iff some instant lies after the request    *)
(* and after the sending of everything shown, and before the end of the    *)
(* stream and before the reply to everything not shown.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

Snaps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE n

Lower(s) == Max({s.req} \union { w.i : w \in { x \in Range(s.w) : x.inc } })
Upper(s) == Min({s.end} \union { w.r : w \in { x \in Range(s.w) : ~x.inc } })
PointInTime(s) == Lower(s) < Upper(s)

Init == n = 1
Next == /\ n <= Len(Snaps)
        /\ \/ PointInTime(Snaps[n])
           \/ /\ ~PointInTime(Snaps[n])
              /\ PrintT("MISMATCH " \o ToJson([i |-> n, lower |-> Lower(Snaps[n]), upper |-> Upper(Snaps[n])]))
              /\ FALSE
        /\ n' = n + 1
Spec == Init /\ [][Next]_n
Accepted == TLCGet("stats").diameter = Len(Snaps) + 1
=============================================================================
