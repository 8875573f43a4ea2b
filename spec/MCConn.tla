------------------------------- MODULE MCConn -------------------------------
(***************************************************************************)
(* The server side of a connection, small scope: every stream of at most   *)
(* MaxItems items of 1..MaxLen bytes, every way of cutting it into pieces, *)
(* every interleaving of arrivals and serving, with a buffer of unbounded  *)
(* size that is parsed from its front.  Checked: what such a server sends  *)
(* is what Conn!Served accepts at every quiescent moment, for every        *)
(* segmentation; the replies are those of the items in order.              *)
(***************************************************************************)
EXTENDS Conn, TLC

CONSTANTS MaxItems, MaxLen
Kinds == {"good", "bad", "junk"}
RECURSIVE Streams(_, _)
Streams(n, at) ==
    {<<>>} \union (IF n = 0 THEN {} ELSE
    UNION { { <<[k |-> k, end |-> at + l]>> \o s : s \in Streams(n - 1, at + l) } : k \in Kinds, l \in 1..MaxLen })
End(s) == IF s = <<>> THEN 0 ELSE s[Len(s)].end

VARIABLES items, sent, got, out, seg, next, closed, c, ok
vars == <<items, sent, got, out, seg, next, closed, c, ok>>
(* sent: bytes the client has sent; got: bytes the server has read; out: (item, kind) of every reply; seg: replies since the    *)
(* last quiescent moment; c: the state of the observer                                                                    *)
Init == /\ items \in Streams(MaxItems, 0)
        /\ sent = 0 /\ got = 0 /\ out = <<>> /\ seg = <<>> /\ next = 1 /\ closed = FALSE /\ c = Fresh /\ ok = TRUE
Send == /\ sent < End(items) /\ ~closed
        /\ \E t \in sent + 1..End(items) : sent' = t
        /\ UNCHANGED <<items, got, out, seg, next, closed, c, ok>>
Read == /\ got < sent /\ ~closed
        /\ \E t \in got + 1..sent : got' = t
        /\ UNCHANGED <<items, sent, out, seg, next, closed, c, ok>>
Whole == next <= Len(items) /\ items[next].end <= got
Can == ~closed /\ Whole
(* junk may be noticed before all of it was read *)
Early == ~closed /\ Begun(items, next, got)
Reply(k) == out' = Append(out, <<next, k>>) /\ seg' = Append(seg, k) /\ next' = next + 1
Serve == /\ Can \/ Early
         /\ \/ items[next].k = "good" /\ \E k \in {"r", "e"} : Reply(k) /\ closed' = FALSE
            \/ items[next].k = "bad" /\ Reply("e") /\ closed' = FALSE
            \/ items[next].k = "bad" /\ closed' = TRUE /\ next' = next + 1 /\ UNCHANGED <<out, seg>>
            \/ items[next].k = "junk" /\ closed' = TRUE /\ next' = next + 1 /\ UNCHANGED <<out, seg>>
            \/ items[next].k = "junk" /\ closed' = TRUE /\ Reply("e")
         /\ UNCHANGED <<items, sent, got, c, ok>>
Quiescent == closed \/ (got = sent /\ ~Can)
(* the observer looks at a quiescent moment *)
Observe == /\ Quiescent /\ (seg # <<>> \/ closed # c.closed)
           /\ LET n == Served(items, c, got, seg, closed) IN c' = n /\ ok' = (n # Fail)
           /\ seg' = <<>>
           /\ UNCHANGED <<items, sent, got, out, next, closed>>
Next == Send \/ Read \/ Serve \/ Observe
Spec == Init /\ [][Next]_vars
Accepted == ok
InOrder == \A a, b \in 1..Len(out) : a < b => out[a][1] < out[b][1]
OnePerGood == \A j \in 1..next - 1 : items[j].k = "good" => Cardinality({ a \in 1..Len(out) : out[a][1] = j }) = 1
NeverEarly == \A a \in 1..Len(out) : items[out[a][1]].k # "junk" => items[out[a][1]].end <= got
=============================================================================
