------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Decides whether concurrent histories recorded on the real server are    *)
(* linearizable with respect to Keyspace.  Every line of the file named by *)
(* TRACE is one history: c = for every client its sequence of operations   *)
(* in program order, each with the moments inv at which the request was    *)
(* sent and res at which its reply was known, the command, the clock and   *)
(* the reply r.  TLC searches the orders: a state is how far each client   *)
(* got and the keyspace that resulted.  An operation may come next if it   *)
(* was sent before every operation still to come had been answered, and    *)
(* if its reply is the one the keyspace gives.                             *)
(* An operation whose reply was never seen (r.k = "lost") may take effect  *)
(* at any later moment or not at all; it is its client's last.             *)
(* An operation may carry several clock values (nows): it ran at one of    *)
(* them, and the clock never goes back.                                    *)
(***************************************************************************)
EXTENDS Keyspace, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, pos, kv, clk
vars == <<h, pos, kv, clk>>
C == Log[h].c
\* what the payloads that are restored in this history denote
Blobs == [p \in DOMAIN Log[h].b |-> [t |-> Log[h].b[p].t, v |-> FromElements(Log[h].b[p].t, Log[h].b[p].v)]]
Init == h \in DOMAIN Log /\ pos = [x \in DOMAIN Log[h].c |-> 1] /\ kv = Empty /\ clk = Zero

Left(x) == pos[x] <= Len(C[x])
Op(x) == C[x][pos[x]]
Lost(o) == o.r.k = "lost"
Enabled(x) == Left(x) /\ \A y \in DOMAIN C : (Left(y) /\ y # x /\ ~Lost(Op(y))) => Op(x).inv < Op(y).res
Nows(o) == IF "nows" \in DOMAIN o THEN Range(o.nows) ELSE {o.now}
Res(x, n) == Apply(kv, n, Op(x), Blobs)
Fits(x, n) == NLe(clk, n) /\ (Lost(Op(x)) \/ ReplyOk(Res(x, n).r, Op(x).r))

(* operations which, with the reply they got, change nothing wherever they stand in the order: one that fits can be taken at once *)
Reads == {"get", "exists", "ttl", "pttl", "llen", "lrange", "hget", "hmget", "hgetall", "hexists", "sismember", "smismember", "smembers",
          "zrank", "zrange", "ping"}
Zeros == {"hsetnx", "sadd", "srem", "hdel", "del", "zrem", "expire", "push"}
NoEffect(o) == \/ o.op \in Reads
               \/ o.r.k = "err"
               \/ o.op \in Zeros /\ o.r = SmallInt(0)
               \/ o.op = "set" /\ ~o.get /\ o.r.k = "nil"
Quiet(x) == Enabled(x) /\ NoEffect(Op(x)) /\ "nows" \notin DOMAIN Op(x) /\ Fits(x, Op(x).now)
Take(x) == /\ pos' = [pos EXCEPT ![x] = @ + 1]
           /\ h' = h
Done == \A x \in DOMAIN C : ~Left(x)

Step == IF \E x \in DOMAIN C : Quiet(x)
        THEN LET x == CHOOSE x \in DOMAIN C : Quiet(x) IN Take(x) /\ kv' = kv /\ clk' = Op(x).now
        ELSE \E x \in DOMAIN C :
                /\ Enabled(x)
                /\ \E n \in Nows(Op(x)) :
                      /\ Fits(x, n)
                      /\ clk' = n
                      /\ \/ kv' = Res(x, n).kv
                         \/ Lost(Op(x)) /\ kv' = kv
                /\ Take(x)
Spec == Init /\ [][Step]_vars

(* evaluated in every reachable state; prints the histories for which an order was found *)
Seen == Done => PrintT("DONE " \o ToJson([h |-> h]))
=============================================================================
