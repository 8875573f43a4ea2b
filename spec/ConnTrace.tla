----------------------------- MODULE ConnTrace -----------------------------
(* Connections recorded on the real server.  Every line: the items, and the pieces seg in which they were sent, each     *)
(* with the position to it reaches, the replies obs that had arrived when the server was quiescent again, and shut.      *)
EXTENDS Conn, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, c
vars == <<i, s, c>>
Init == i = 1 /\ s = 1 /\ c = Fresh
Step == /\ i <= Len(Log)
        /\ LET e == Log[i] IN
           IF s > Len(e.seg) THEN i' = i + 1 /\ s' = 1 /\ c' = Fresh
           ELSE LET p == e.seg[s]
                    n == Served(e.items, c, p.to, p.obs, p.shut)
                IN /\ \/ n # Fail
                      \/ n = Fail /\ PrintT("MISMATCH " \o ToJson([i |-> i, s |-> s, j |-> c.j])) /\ FALSE
                   /\ c' = n /\ s' = s + 1 /\ i' = i
Spec == Init /\ [][Step]_vars
Pos == <<i, s>>
(* STEPS: the number of lines and pieces *)
Accepted == \/ ToString(TLCGet("stats").diameter - 1) = IOEnv.STEPS
            \/ PrintT("REJECTED") /\ FALSE
=============================================================================
