----------------------------- MODULE ReplTrace -----------------------------
(***************************************************************************)
(* Decides whether a real follower did with what it was sent what Repl     *)
(* prescribes.  Every line of the file named by TRACE is one slot:         *)
(* m = in order, the beginnings of connections (op "conn"), the messages   *)
(* it was sent (the write as a Keyspace command, its number id), and what  *)
(* it was seen to hold (op "contents": its number sid, how many snapshots  *)
(* of the slot it had been given by then, and its contents);               *)
(* s = the snapshots of the slot it asked for, in order: the number id,    *)
(* the contents v, and whether it was part of a snapshot of all slots.     *)
(***************************************************************************)
EXTENDS Keyspace, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
Rp == INSTANCE Repl WITH Slots <- {}, MaxWrites <- 0, MaxFaults <- 0, Faults <- {}, last <- 0, conn <- 0, stream <- 0, snap <- 0,
                        need <- 0, fetching <- 0, got <- 0, faults <- 0

VARIABLES h, mi, si, f, kv
vars == <<h, mi, si, f, kv>>
Init == h \in DOMAIN Log /\ mi = 1 /\ si = 0 /\ f = 0 /\ kv = Empty

FromImage(q) == [k \in { x[1] : x \in Range(q) } |->
                    LET x == CHOOSE x \in Range(q) : x[1] = k IN Entry(x[2], FromElements(x[2], x[3]), x[4])]
M == Log[h].m
S == Log[h].s
Snapshot(all) == /\ si < Len(S)
                 /\ S[si + 1].all = all
                 /\ f' = S[si + 1].id /\ kv' = FromImage(S[si + 1].v) /\ si' = si + 1

\* says why, once per reason; never an action of its own
No(e, why) == PrintT("REJECT " \o ToJson([h |-> h, m |-> mi, why |-> why, id |-> f, taken |-> si])) /\ FALSE

Step ==
    /\ mi <= Len(M) /\ h' = h
    /\ LET e == M[mi] IN
       CASE e.op = "conn" -> IF si < Len(S) /\ S[si + 1].all THEN Snapshot(TRUE) /\ mi' \in (IF si + 1 < Len(S) /\ S[si + 2].all THEN {mi, mi + 1} ELSE {mi + 1}) ELSE No(e, "no snapshot of all slots was taken") /\ UNCHANGED <<mi, si, f, kv>>
         [] e.op = "contents" -> LET x == Apply(kv, e.now, e, Empty) IN
              IF e.sid # f THEN No(e, "number of the last write")  /\ UNCHANGED <<mi, si, f, kv>>
              ELSE IF e.n # si THEN No(e, "snapshots taken") /\ UNCHANGED <<mi, si, f, kv>>
              ELSE IF ~ReplyOk(x.r, e.r) THEN No(e, x.r.v) /\ UNCHANGED <<mi, si, f, kv>>
              ELSE mi' = mi + 1 /\ UNCHANGED <<si, f, kv>>
         [] OTHER -> LET v == Rp!Verdict(f, e.id) IN
              CASE v = "apply" -> f' = e.id /\ kv' = Apply(kv, e.now, e, Empty).kv /\ mi' = mi + 1 /\ si' = si
                [] v = "skip" -> mi' = mi + 1 /\ UNCHANGED <<si, f, kv>>
                [] v = "fetch" -> IF si < Len(S) /\ ~S[si + 1].all THEN Snapshot(FALSE) /\ mi' = mi
                                  ELSE No(e, "a gap was not repaired by fetching the slot") /\ UNCHANGED <<mi, si, f, kv>>
Spec == Init /\ [][Step]_vars
Seen == (mi > Len(M)) => PrintT("DONE " \o ToJson([h |-> h]))
=============================================================================
