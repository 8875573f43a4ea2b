------------------------------ MODULE ObeyTrace ------------------------------
(***************************************************************************)
(* Accepts what was seen of a real server with scripted placement driver   *)
(* and leaders iff the server obeyed (Obey) and its keyspace is what       *)
(* follows from it (Keyspace).  Events of the ndjson file named by TRACE:  *)
(*   config   what the server was configured with                         *)
(*   early    a client tried the server before the driver had answered     *)
(*   init     the registration, and the status it was answered with        *)
(*   hb       a heartbeat: what it reported, the answer, and when          *)
(*   say      a write of the leader with that forward address              *)
(*   obs      the leaders whose write stream the server is connected to,   *)
(*            the contents of the server, and the time, nothing being      *)
(*            under way                                                    *)
(* Everything else is a command a client gave to the server.               *)
(***************************************************************************)
EXTENDS Keyspace, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
Ob == INSTANCE Obey WITH Me <- 0, Others <- {}, MaxEpoch <- 0, Guarded <- TRUE, told <- 0, epoch <- 0, tasks <- 0, data <- 0, asked <- 0

VARIABLES i, cfg, told, beats, kv, kvl
vars == <<i, cfg, told, beats, kv, kvl>>
Init == i = 1 /\ cfg = <<>> /\ told = <<>> /\ beats = 0 /\ kv = Empty /\ kvl = Empty

No(why) == PrintT("MISMATCH " \o ToJson([i |-> i, exp |-> why])) /\ FALSE
\* the leader to follow as the address of its write stream; "" for none
To(t) == IF t = <<>> THEN "" ELSE IF Ob!Follows(t[1]) = <<>> THEN "" ELSE Ob!Follows(t[1])[1].forward
\* what the server holds when it was told t and now is told u
Held(t, u) == IF To(u) # "" /\ To(u) # To(t) /\ To(u) \in DOMAIN kvl THEN kvl[To(u)] ELSE kv
Streams == IF To(told) \in DOMAIN kvl THEN <<To(told)>> ELSE <<>>

Step ==
    /\ i <= Len(Log) /\ i' = i + 1
    /\ LET e == Log[i] IN
       CASE e.op = "config" -> cfg' = <<e>> /\ told' = <<>> /\ beats' = 0 /\ kv' = Empty
                               /\ kvl' = [a \in Range(e.leaders) |-> Empty]
         [] e.op = "early" -> IF e.answered THEN No("no service before registration") /\ UNCHANGED <<cfg, told, beats, kv, kvl>>
                              ELSE UNCHANGED <<cfg, told, beats, kv, kvl>>
         [] e.op = "init" -> IF told # <<>> THEN No("registers once") /\ UNCHANGED <<cfg, told, beats, kv, kvl>>
                             ELSE IF e.group # cfg[1].group \/ e.server # cfg[1].server \/ e.forward # cfg[1].forward
                                  THEN No(cfg[1]) /\ UNCHANGED <<cfg, told, beats, kv, kvl>>
                             ELSE told' = <<e.ans>> /\ kv' = Held(<<>>, <<e.ans>>) /\ UNCHANGED <<cfg, beats, kvl>>
         [] e.op = "hb" -> IF told = <<>> \/ e.st # told[1] THEN No(told) /\ UNCHANGED <<cfg, told, beats, kv, kvl>>
                           ELSE LET u == <<Ob!After(told[1], e.ans)>> IN
                                told' = u /\ kv' = Held(told, u) /\ beats' = beats + 1 /\ UNCHANGED <<cfg, kvl>>
         [] e.op = "say" -> LET w == [e EXCEPT !.op = e.what] IN
                            /\ kvl' = [kvl EXCEPT ![e.l] = Apply(@, e.now, w, Empty).kv]
                            /\ kv' = IF To(told) = e.l THEN Apply(kv, e.now, w, Empty).kv ELSE kv
                            /\ UNCHANGED <<cfg, told, beats>>
         [] e.op = "obs" -> LET x == Apply(kv, e.now, [op |-> "contents"], Empty) IN
                            /\ IF e.streams # Streams THEN No([streams |-> Streams])
                               ELSE IF ~ReplyOk(x.r, e.r) THEN No(x.r.v)
                               \* a heartbeat a second
                               ELSE IF beats > e.at \div 1000 + 3 \/ beats < e.at \div 1000 - 3 THEN No([heartbeats |-> e.at \div 1000, were |-> beats])
                               ELSE TRUE
                            /\ UNCHANGED <<cfg, told, beats, kv, kvl>>
         [] OTHER -> LET x == Apply(kv, e.now, e, Empty) IN
                     /\ IF ReplyOk(x.r, e.r) THEN TRUE ELSE No(x.r)
                     /\ kv' = x.kv /\ UNCHANGED <<cfg, told, beats, kvl>>
Spec == Init /\ [][Step]_vars
View == i
Accepted ==
    \/ TLCGet("stats").diameter = Len(Log) + 1
    \/ PrintT("REJECTED " \o ToJson([reached |-> TLCGet("stats").diameter, len |-> Len(Log)])) /\ FALSE
=============================================================================
