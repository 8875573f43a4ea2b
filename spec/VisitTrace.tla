----------------------------- MODULE VisitTrace -----------------------------
(***************************************************************************)
(* Accepts a recorded execution (as KsTrace) in which every answer of      *)
(* OBJECT FREQ and OBJECT IDLETIME agrees with the uses of the key.        *)
(***************************************************************************)
EXTENDS Keyspace, Json, IOUtils, TLC
V == INSTANCE Visits WITH Cap <- 65535, Mod <- 65536, First <- 5, Grain <- 10

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, kv, blobs, log               \* log: of every key of kv the possible use logs
vars == <<i, kv, blobs, log>>

Init == i = 1 /\ kv = Empty /\ blobs = Empty /\ log = Empty

Report(x, o) == PrintT("MISMATCH " \o ToJson([i |-> i, exp |-> x, obs |-> o]))

Second(now) == LET q == NDiv1000(now) IN q[2] * B + q[3]
SmallOf(r) == IF r[1] = 0 /\ r[2] < 1000 THEN r[2] * B + r[3] ELSE -1

Quiet == {"ttl", "pttl", "objinfo"}        \* commands that look at a key without using it
Names(e, k) == IF e.op \in Quiet THEN 0
               ELSE IF "ks" \in DOMAIN e THEN Cardinality({ j \in 1..Len(e.ks) : e.ks[j] = k })
               ELSE IF "k" \in DOMAIN e /\ e.k = k THEN 1 ELSE 0
Refused(r) == r.k \in {"err", "bad"}
\* whether e, which named a live key and was not refused, stored a whole new value under it
Replaces(e, k) == \/ e.op = "set" /\ e.k = k /\ e.c # "NX"
                  \/ e.op = "restore" /\ e.k = k

\* after event e, whose clock is second s, from keyspace o to x.kv
Logs(o, x, e, s) ==
    [k \in DOMAIN x.kv |->
        LET n == Names(e, k) IN
        IF k \notin DOMAIN o \/ (n > 0 /\ ~Refused(x.r) /\ Replaces(e, k))
        THEN IF e.op = "restore" THEN V!Restored(s, e.idle, e.freq) ELSE V!Fresh(s)
        ELSE IF n = 0 THEN log[k]
        ELSE V!Touch(log[k], IF Refused(x.r) THEN 0 ELSE n, 2 * n, s)]

Seen(e, s) == IF e.sub = "freq" THEN V!FreqIs(log[e.k], SmallOf(e.r.v)) ELSE V!IdleIs(log[e.k], SmallOf(e.r.v), s)

Step ==
    /\ i <= Len(Trace)
    /\ LET e == Trace[i] IN
       IF e.op = "reset" THEN kv' = Empty /\ blobs' = Empty /\ log' = Empty
       ELSE LET o == Live(kv, e.now)
                x == Apply(kv, e.now, e, blobs)
                s == Second(e.now)
            IN
            /\ \/ ReplyOk(x.r, e.r)
               \/ ~ReplyOk(x.r, e.r) /\ Report(x.r, e.r) /\ FALSE
            /\ IF e.op = "objinfo" /\ e.k \in DOMAIN o
               THEN LET n == Seen(e, s) IN
                    /\ \/ n # {}
                       \/ n = {} /\ Report([what |-> e.sub, at |-> s, logs |-> log[e.k]], e.r) /\ FALSE
                    /\ log' = [k \in DOMAIN x.kv |-> IF k = e.k THEN n ELSE log[k]]
               ELSE log' = Logs(o, x, e, s)
            /\ kv' = x.kv
            /\ IF x.r.k # "blob" THEN blobs' = blobs
               ELSE IF e.r.v \in DOMAIN blobs
                    THEN blobs' = blobs /\ blobs[e.r.v].t = x.r.v.t /\ blobs[e.r.v].v = x.r.v.v
                    ELSE blobs' = With(blobs, e.r.v, x.r.v)
    /\ i' = i + 1

Spec == Init /\ [][Step]_vars
View == i
Accepted ==
    \/ TLCGet("stats").diameter = Len(Trace) + 1
    \/ PrintT("REJECTED " \o ToJson([reached |-> TLCGet("stats").diameter, len |-> Len(Trace)])) /\ FALSE
=============================================================================
