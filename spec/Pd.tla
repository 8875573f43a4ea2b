--------------------------------- MODULE Pd ---------------------------------
(***************************************************************************)
(* One group of the placement driver.  A group is a record                 *)
(*   servers : the servers in the order in which they registered, each     *)
(*             [id, hb |-> when it was last heard from (registering counts),*)
(*              lead |-> whether it is the leader, addr |-> what it        *)
(*              registered]                                                *)
(*   leader  : <<>> or <<[id, addr]>>, the leader everybody is told about  *)
(* Groups never influence each other, so a driver is a sequence of these;  *)
(* the n-th group created is group n.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Timeout == 3000
NewGroup == [servers |-> <<>>, leader |-> <<>>]

View(g, i) == [id |-> g.servers[i].id, lead |-> g.servers[i].lead, leader |-> g.leader]
Idx(g, id) == CHOOSE i \in 1..Len(g.servers) : g.servers[i].id = id
Known(g, id) == \E i \in 1..Len(g.servers) : g.servers[i].id = id
Leaders(g) == { i \in 1..Len(g.servers) : g.servers[i].lead }
Alive(s, now) == now - s.hb <= Timeout

(* a server registers: the next id, and leader iff the group has none *)
Register(g, addr, now) ==
    LET s == [id |-> Len(g.servers) + 1, hb |-> now, lead |-> Leaders(g) = {}, addr |-> addr]
        h == [servers |-> Append(g.servers, s),
              leader |-> IF s.lead THEN <<[id |-> s.id, addr |-> addr]>> ELSE g.leader]
    IN [g |-> h, r |-> View(h, Len(h.servers))]

(* a heartbeat: the server is heard from, and corrected iff what it reports is not what the driver holds *)
Heartbeat(g, id, report, now) ==
    LET i == Idx(g, id)
        h == [g EXCEPT !.servers[i].hb = now]
    IN [g |-> h, r |-> IF report = View(g, i) THEN <<>> ELSE <<View(g, i)>>]

(* the check made every second *)
Check(g, now) ==
    LET dead == { i \in Leaders(g) : ~Alive(g.servers[i], now) }
        h == [g EXCEPT !.servers = [i \in 1..Len(@) |-> IF i \in dead THEN [@[i] EXCEPT !.lead = FALSE] ELSE @[i]]]
        cand == { i \in 1..Len(h.servers) : Alive(h.servers[i], now) }
    IN IF Leaders(h) # {} \/ cand = {} THEN h
       ELSE LET n == CHOOSE i \in cand : \A j \in cand : i <= j
            IN [h EXCEPT !.servers[n].lead = TRUE, !.leader = <<[id |-> h.servers[n].id, addr |-> h.servers[n].addr]>>]

---------------------------------------------------------------------------
(* what a group guarantees in every state *)
UniqueIds(g) == \A i, j \in 1..Len(g.servers) : g.servers[i].id = g.servers[j].id => i = j
OneLeader(g) == Cardinality(Leaders(g)) <= 1
LeaderKnown(g) == /\ g.servers # <<>> => g.leader # <<>>
                  /\ \A i \in Leaders(g) : g.leader = <<[id |-> g.servers[i].id, addr |-> g.servers[i].addr]>>
                  /\ g.leader # <<>> => Known(g, g.leader[1].id) /\ g.servers[Idx(g, g.leader[1].id)].addr = g.leader[1].addr
(* what a check guarantees *)
KeepsLive(g, now) == \A i \in Leaders(g) : Alive(g.servers[i], now) => Check(g, now) = g
Replaces(g, now) ==
    LET h == Check(g, now) IN
    (\A i \in Leaders(g) : ~Alive(g.servers[i], now)) =>
        IF \A i \in 1..Len(g.servers) : ~Alive(g.servers[i], now) THEN Leaders(h) = {} /\ h.leader = g.leader
        ELSE \E i \in Leaders(h) : Alive(h.servers[i], now) /\ \A j \in 1..i - 1 : ~Alive(h.servers[j], now)
=============================================================================
