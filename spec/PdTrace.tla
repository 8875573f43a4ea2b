------------------------------ MODULE PdTrace ------------------------------
(***************************************************************************)
(* Accepts what one group of the real placement driver answered iff it is  *)
(* a behaviour of Pd.  op = "reset": the trace of another group follows;   *)
(* exists says whether the group has been created.                         *)
(***************************************************************************)
EXTENDS Pd, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, g, made
vars == <<i, g, made>>

Init == i = 1 /\ g = NewGroup /\ made = FALSE
Is(exp, obs) == \/ exp = obs
                \/ exp # obs /\ PrintT("MISMATCH " \o ToJson([i |-> i, exp |-> exp, obs |-> obs])) /\ FALSE
Step ==
    /\ i <= Len(Log)
    /\ LET e == Log[i] IN
       CASE e.op = "reset" -> g' = NewGroup /\ made' = FALSE
         [] e.op = "create" -> g' = g /\ made' = TRUE
         [] e.op = "reg" /\ ~made -> Is("error", e.r) /\ g' = g /\ made' = made
         [] e.op = "reg" /\ made -> LET x == Register(g, e.addr, e.now) IN Is(x.r, e.r) /\ g' = x.g /\ made' = made
         [] e.op = "hb" -> LET x == Heartbeat(g, e.id, e.report, e.now) IN Is(x.r, e.r) /\ g' = x.g /\ made' = made
         [] e.op = "check" -> g' = Check(g, e.now) /\ made' = made
    /\ UniqueIds(g') /\ OneLeader(g') /\ LeaderKnown(g')
    /\ i' = i + 1
Spec == Init /\ [][Step]_vars
View_ == i
Accepted ==
    \/ TLCGet("stats").diameter = Len(Log) + 1
    \/ PrintT("REJECTED " \o ToJson([reached |-> TLCGet("stats").diameter, len |-> Len(Log)])) /\ FALSE
=============================================================================
