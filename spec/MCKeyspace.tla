----------------------------- MODULE MCKeyspace -----------------------------
(***************************************************************************)
(* Exhaustive small-scope exploration of Keyspace.  The commands explored  *)
(* are the events of the json file named by CMDS (the same event form the  *)
(* traces of the real server use); "tick" lets time pass.  The clock is    *)
(* kept at the constant Now and a tick moves every deadline closer, which  *)
(* is the same thing and keeps the state space finite.  Every labelled     *)
(* transition is printed, so that the transition graph explored here is    *)
(* the one walked on the real server.                                      *)
(***************************************************************************)
EXTENDS Keyspace, Json, IOUtils, TLC

Conf == JsonDeserialize(IOEnv.CMDS)
Cmds == Conf.cmds
Now == Conf.now
MaxSize == Conf.maxsize                     \* bound on the size of any collection
Seed == Conf.blobs                          \* payloads known to the model: sequence of [t, v]
\* json cannot carry sets or functions with integer domain: a payload's value arrives as a sequence
Pairs(q) == [x \in { q[j][1] : j \in 1..Len(q) } |-> (CHOOSE j \in 1..Len(q) : q[j][1] = x)]
BlobVal(b) ==
    CASE b.t \in {"str", "list"} -> b.v
      [] b.t = "set" -> Range(b.v)
      [] OTHER -> [x \in DOMAIN Pairs(b.v) |-> b.v[Pairs(b.v)[x]][2]]
Blobs == [j \in 1..Len(Seed) |-> [t |-> Seed[j].t, v |-> BlobVal(Seed[j])]]

VARIABLES kv, last
vars == <<kv, last>>

\* With Conf.ghosts a key past its deadline stays in the state until a command changes the keyspace, so that the tour
\* meets every command on every kind of expired key that is still in memory.
Ghosts == Conf.ghosts
Dead == Zero
Shift(d, ms) == IF d = NoD THEN NoD ELSE IF NLe(NSub(d, ms), Now) THEN Dead ELSE NSub(d, ms)
Age(f, ms) == [k \in DOMAIN f |-> [f[k] EXCEPT !.d = Shift(@, ms)]]
Alive(f) == Live(f, Now)
Settle(f) == IF Ghosts THEN f ELSE Alive(f)

Run(f, e) == IF e.op = "tick" THEN R(Settle(Age(f, e.n)), Ok)
             ELSE LET x == Apply(f, Now, e, Blobs) IN
                  R(IF Ghosts /\ x.kv = Alive(f) THEN f ELSE Alive(x.kv), x.r)
\* lexicographic removal is specified only for sets whose members share one score
Specified(f, e) ==
    (e.op = "zremrange" /\ e.by = "lex" /\ e.k \in DOMAIN f /\ f[e.k].t = "zset") => Scores1(f[e.k].v)

SizeOf(x) == CASE x.t = "str" -> 1
               [] x.t = "list" -> Len(x.v)
               [] x.t = "set" -> Cardinality(x.v)
               [] OTHER -> Cardinality(DOMAIN x.v)
Ints == { Conf.ints[j] : j \in 1..Len(Conf.ints) }   \* integers counters may reach
IntOk(s) == IF IsInt(s) THEN IntOf(s) \in Ints ELSE TRUE
Small(f) == \A k \in DOMAIN f :
    /\ SizeOf(f[k]) <= MaxSize
    /\ f[k].t = "str" => IntOk(f[k].v)
    /\ f[k].t = "hash" => \A x \in DOMAIN f[k].v : IntOk(f[k].v[x])
    /\ f[k].t = "zset" => \A m \in DOMAIN f[k].v : IF Ints = {} THEN TRUE ELSE f[k].v[m] \in Ints

Init == kv = Empty /\ last = 0
Next == \E c \in 1..Len(Cmds) :
            /\ Specified(kv, Cmds[c])
            /\ LET x == Run(kv, Cmds[c]) IN
               /\ Small(x.kv)
               /\ PrintT("TR " \o ToString(kv) \o " # " \o ToString(c) \o " # " \o ToString(x.kv))
               /\ kv' = x.kv
               /\ last' = c
Spec == Init /\ [][Next]_vars
View == kv

(* ------------------------------------------------------- what must hold here *)
Types == {"str", "list", "hash", "set", "zset"}
WellFormed ==
    \A k \in DOMAIN Alive(kv) :
        /\ kv[k].t \in Types
        /\ SizeOf(kv[k]) > 0                                  \* an empty collection does not exist
        /\ kv[k].d = NoD \/ NLt(Now, kv[k].d)                 \* nor does a key past its deadline

Named(e) == IF "ks" \in DOMAIN e THEN Range(e.ks) ELSE IF "k" \in DOMAIN e THEN {e.k} ELSE {}
Reads == {"get", "exists", "ttl", "pttl", "llen", "lrange", "hget", "hmget", "hgetall", "hexists", "sismember",
          "smismember", "smembers", "zrank", "zrange", "dump", "objinfo", "debugobj", "ping", "config", "info"}

\* checked on every transition
Frame == [][ LET e == Cmds[last'] IN
               e.op \in {"flushall", "tick"} \/ \A k \in (DOMAIN Alive(kv) \union DOMAIN Alive(kv')) \ Named(e) :
                    k \in DOMAIN Alive(kv) /\ k \in DOMAIN Alive(kv') /\ kv'[k] = kv[k] ]_vars
RefusalChangesNothing ==
    [][ LET e == Cmds[last'] x == Run(kv, e) IN
          (x.r.k \in {"err", "bad", "nil"} /\ e.op # "tick") => (Alive(kv') = Alive(kv) \/ (e.op = "set" /\ e.get)) ]_vars
ReadsChangeNothing == [][ Cmds[last'].op \in Reads => Alive(kv') = Alive(kv) ]_vars
WrongTypeRefused ==
    [][ LET e == Cmds[last'] x == Run(kv, e)
            ty == CASE e.op \in {"push", "pop", "llen", "lrange"} -> "list"
                    [] e.op \in {"hset", "hsetnx", "hget", "hmget", "hgetall", "hexists", "hdel", "hincrby"} -> "hash"
                    [] e.op \in {"sadd", "srem", "sismember", "smismember", "smembers"} -> "set"
                    [] e.op \in {"zadd", "zrem", "zrank", "zrange", "zremrange"} -> "zset"
                    [] e.op \in {"get", "incrby"} -> "str"
                    [] OTHER -> "none"
        IN (ty # "none" /\ e.k \in DOMAIN Alive(kv) /\ kv[e.k].t # ty) => x.r.k \in {"err", "bad"} ]_vars
\* only the commands that are about deadlines change the deadline of a key that stays
DeadlineKept ==
    [][ LET e == Cmds[last'] IN
          e.op \notin {"expire", "set", "restore", "tick", "del", "flushall"} =>
             \A k \in DOMAIN Alive(kv) \intersect DOMAIN Alive(kv') : kv'[k].d = kv[k].d ]_vars
\* ranks, ranges and scores of a sorted set describe one and the same order
RECURSIVE Sorted(_)
Sorted(q) == Len(q) < 2 \/ (ZLess(q[1], q[2]) /\ Sorted(Tail(q)))
ZsetOrder ==
    \A k \in DOMAIN Alive(kv) : kv[k].t = "zset" =>
        LET q == ZSeq(kv[k].v) IN
        /\ Sorted(q)
        /\ Len(q) = Cardinality(DOMAIN kv[k].v)
        /\ \A j \in 1..Len(q) : DoZrank(kv, [k |-> k, m |-> q[j][2], rev |-> FALSE]).r = SmallInt(j - 1)
=============================================================================
