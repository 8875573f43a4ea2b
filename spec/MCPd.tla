-------------------------------- MODULE MCPd --------------------------------
(* Every history of one group with at most Max servers.  Times are kept relative to the present (now = 0) and cut off   *)
(* where nothing depends on them any more; the steps 1500 and 1501 make silences of exactly 3000 and 3001 ms.           *)
EXTENDS Pd, TLC, Json, IOUtils

CONSTANT Max
VARIABLE g

Cut(t) == IF t < -Timeout - 1 THEN -Timeout - 1 ELSE t
Adv(x, d) == [x EXCEPT !.servers = [i \in 1..Len(@) |-> [@[i] EXCEPT !.hb = Cut(@ - d)]]]

Ops == {<<"reg">>, <<"tick">>, <<"adv", 1500>>, <<"adv", 1501>>}
       \union { <<"hb", i, same>> : i \in 1..Max, same \in {TRUE, FALSE} }
Enabled(o) == CASE o[1] = "reg" -> Len(g.servers) < Max
                [] o[1] = "hb" -> o[2] <= Len(g.servers)
                [] OTHER -> TRUE
After(o) == CASE o[1] = "reg" -> Register(g, Len(g.servers) + 1, 0).g
              [] o[1] = "hb" -> Heartbeat(g, o[2], [id |-> 0, lead |-> FALSE, leader |-> <<>>], 0).g
              [] o[1] = "adv" -> Adv(g, o[2])
              [] OTHER -> Check(g, 0)

Init == g = NewGroup
Next == \E o \in Ops : /\ Enabled(o)
                       /\ g' = After(o)
                       /\ IF "EDGES" \in DOMAIN IOEnv THEN PrintT("TR " \o ToJson([a |-> g, o |-> o, b |-> g'])) ELSE TRUE
Spec == Init /\ [][Next]_g
Inv == UniqueIds(g) /\ OneLeader(g) /\ LeaderKnown(g) /\ KeepsLive(g, 0) /\ Replaces(g, 0)
=============================================================================
