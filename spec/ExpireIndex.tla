---------------------------- MODULE ExpireIndex ----------------------------
(***************************************************************************)
(* The machinery that reclaims expired keys: the dictionaries of the       *)
(* slots, the index of deadlines, the queue by which writers tell the      *)
(* index about changes, the task that empties the queue, the task that     *)
(* purges, and what FLUSHALL and the replacement of a whole dictionary     *)
(* (a follower that takes a snapshot) do to them.                          *)
(*                                                                         *)
(* One key per slot.  dict[k] is the deadline of k, or None (present       *)
(* without one), or Absent.  Every step is what happens under one lock.    *)
(* The clock may advance at any moment.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, MaxT, MaxOps, Features
\* Features: subset of {"flush", "replace"}

None == 1000
Absent == 2000
Times == 1..MaxT

VARIABLES dict,      \* Keys -> Times \union {None, Absent}
          idx,       \* set of <<deadline, key>>
          chan,      \* messages in flight to the index
          now, ops,
          ppc, popped, wake, permit,   \* purge task: "scan" (decides), "check" (popped one), "wait" (until wake or permit)
          fpc, fleft,                  \* FLUSHALL: "idle", "swap" (slots left), "sweep" (entries left)
          rpc, rkey, rnew              \* replacement of a dictionary: "idle", "set", "add"
vars == <<dict, idx, chan, now, ops, ppc, popped, wake, permit, fpc, fleft, rpc, rkey, rnew>>

Init == /\ dict = [k \in Keys |-> Absent] /\ idx = {} /\ chan = <<>> /\ now = 0 /\ ops = 0
        /\ ppc = "scan" /\ popped = <<>> /\ wake = 0 /\ permit = FALSE
        /\ fpc = "idle" /\ fleft = {} /\ rpc = "idle" /\ rkey = 0 /\ rnew = Absent

IsT(d) == d \in Times
Dead(d) == IsT(d) /\ d <= now
LiveK(k) == dict[k] # Absent /\ ~Dead(dict[k])
Min(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
(* the sweep of FLUSHALL holds the index *)
Free == fpc # "sweep"

(* ---------------------------------------------------------------- clients *)
(* a write under the slot's lock: the new deadline, and the message, if the deadline changed.  An expired key is no key: it is   *)
(* replaced, and its index entry may be announced as gone or be left behind                                                    *)
Msg(k, new, old) == [t |-> "upd", k |-> k, new |-> new, old |-> old]
Write(k, d) ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ IsT(d) => d > now
    /\ LET was == IF LiveK(k) THEN dict[k] ELSE Absent
       IN /\ dict' = [dict EXCEPT ![k] = d]
          /\ \E old \in {was} \union {dict[k]} :
                chan' = IF (IF IsT(d) THEN d ELSE 0) = (IF IsT(old) THEN old ELSE 0) THEN chan
                        ELSE Append(chan, Msg(k, IF IsT(d) THEN d ELSE 0, IF IsT(old) THEN old ELSE 0))
    /\ UNCHANGED <<idx, now, ppc, popped, wake, permit, fpc, fleft, rpc, rkey, rnew>>
Client == \E k \in Keys : \/ \E d \in Times \union {None} : Write(k, d)
                          \/ LiveK(k) /\ Write(k, Absent)

(* -------------------------------------------------------------- FLUSHALL *)
FlushStart == /\ "flush" \in Features /\ fpc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
              /\ fpc' = "swap" /\ fleft' = Keys
              /\ UNCHANGED <<dict, idx, chan, now, ppc, popped, wake, permit, rpc, rkey, rnew>>
FlushSlot == /\ fpc = "swap" /\ fleft # {}
             /\ \E k \in fleft : dict' = [dict EXCEPT ![k] = Absent] /\ fleft' = fleft \ {k}
             /\ UNCHANGED <<idx, chan, now, ops, ppc, popped, wake, permit, fpc, rpc, rkey, rnew>>
(* afterwards the index is swept: entries that do not match the dictionary are dropped, one dictionary lock at a time *)
SweepStart == /\ fpc = "swap" /\ fleft = {}
              /\ fpc' = "sweep" /\ fleft' = idx
              /\ UNCHANGED <<dict, idx, chan, now, ops, ppc, popped, wake, permit, rpc, rkey, rnew>>
SweepOne == /\ fpc = "sweep" /\ fleft # {}
            /\ \E e \in fleft : fleft' = fleft \ {e} /\ idx' = IF dict[e[2]] = e[1] THEN idx ELSE idx \ {e}
            /\ UNCHANGED <<dict, chan, now, ops, ppc, popped, wake, permit, fpc, rpc, rkey, rnew>>
SweepEnd == /\ fpc = "sweep" /\ fleft = {} /\ fpc' = "idle"
            /\ UNCHANGED <<dict, idx, chan, now, ops, ppc, popped, wake, permit, fleft, rpc, rkey, rnew>>

(* ------------------------------------------- replacement of a dictionary *)
ReplaceStart == /\ "replace" \in Features /\ rpc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
                /\ \E k \in Keys, d \in Times \union {None, Absent} :
                      rkey' = k /\ rnew' = d /\ chan' = Append(chan, [t |-> "clear", k |-> k, new |-> 0, old |-> 0])
                /\ rpc' = "set"
                /\ UNCHANGED <<dict, idx, now, ppc, popped, wake, permit, fpc, fleft>>
ReplaceSet == /\ rpc = "set" /\ dict' = [dict EXCEPT ![rkey] = rnew] /\ rpc' = "add"
              /\ UNCHANGED <<idx, chan, now, ops, ppc, popped, wake, permit, fpc, fleft, rkey, rnew>>
ReplaceAdd == /\ rpc = "add" /\ rpc' = "idle" /\ rkey' = 0 /\ rnew' = Absent
              /\ chan' = Append(chan, [t |-> "add", k |-> rkey, new |-> IF IsT(rnew) THEN rnew ELSE 0, old |-> 0])
              /\ UNCHANGED <<dict, idx, now, ops, ppc, popped, wake, permit, fpc, fleft>>

(* -------------------------------------------------- the task of the queue *)
Receive == /\ chan # <<>> /\ Free
           /\ LET m == Head(chan)
                  first == idx = {} \/ Min(idx)[1] > m.new
                  added == IF m.new > 0 THEN idx \union {<<m.new, m.k>>} ELSE idx
              IN CASE m.t = "clear" -> idx' = { e \in idx : e[2] # m.k } /\ permit' = permit
                   [] m.t = "add" -> idx' = added /\ permit' = TRUE
                   [] m.t = "upd" -> /\ idx' = IF m.old > 0 THEN added \ {<<m.old, m.k>>} ELSE added
                                     /\ permit' = IF m.new > 0 /\ first THEN TRUE ELSE permit
           /\ chan' = Tail(chan)
           /\ UNCHANGED <<dict, now, ops, ppc, popped, wake, fpc, fleft, rpc, rkey, rnew>>

(* --------------------------------------------------------- the purge task *)
Pop == /\ ppc = "scan" /\ Free
       /\ IF idx = {} THEN ppc' = "wait" /\ wake' = 0 /\ UNCHANGED <<idx, popped>>
          ELSE IF Min(idx)[1] > now THEN ppc' = "wait" /\ wake' = Min(idx)[1] /\ UNCHANGED <<idx, popped>>
          ELSE ppc' = "check" /\ popped' = Min(idx) /\ idx' = idx \ {Min(idx)} /\ wake' = wake
       /\ UNCHANGED <<dict, chan, now, ops, permit, fpc, fleft, rpc, rkey, rnew>>
Remove == /\ ppc = "check"
          /\ dict' = IF dict[popped[2]] = popped[1] THEN [dict EXCEPT ![popped[2]] = Absent] ELSE dict
          /\ ppc' = "scan" /\ popped' = <<>>
          /\ UNCHANGED <<idx, chan, now, ops, wake, permit, fpc, fleft, rpc, rkey, rnew>>
Awake == /\ ppc = "wait"
         /\ \/ permit /\ permit' = FALSE
            \/ wake # 0 /\ wake <= now /\ permit' = permit
         /\ ppc' = "scan" /\ wake' = 0
         /\ UNCHANGED <<dict, idx, chan, now, ops, popped, fpc, fleft, rpc, rkey, rnew>>

Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<dict, idx, chan, ops, ppc, popped, wake, permit, fpc, fleft, rpc, rkey, rnew>>

Flush == FlushSlot \/ SweepStart \/ SweepOne \/ SweepEnd
Replace == ReplaceSet \/ ReplaceAdd
Purge == Pop \/ Remove \/ Awake
Next == Client \/ FlushStart \/ Flush \/ ReplaceStart \/ Replace \/ Receive \/ Purge \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Flush) /\ WF_vars(Replace) /\ WF_vars(Receive) /\ WF_vars(Purge) /\ WF_vars(Tick)

(* -------------------------------------------------------------- properties *)
TypeOK == /\ dict \in [Keys -> Times \union {None, Absent}]
          /\ \A e \in idx : e[1] \in Times /\ e[2] \in Keys
(* the purge never removes what is live *)
NeverLive == [][\A k \in Keys : (Remove /\ dict'[k] # dict[k]) => Dead(dict[k])]_vars
(* a key with a deadline is known to the index, or a message or a task that will tell it is on its way *)
Announced(k) == \/ <<dict[k], k>> \in idx
                \/ \E i \in DOMAIN chan : chan[i].k = k /\ chan[i].t # "clear" /\ chan[i].new = dict[k]
                \/ ppc = "check" /\ popped = <<dict[k], k>>
                \/ rpc # "idle" /\ rkey = k      \* about to be replaced, or announced next
Known == \A k \in Keys : IsT(dict[k]) => Announced(k)
(* the purge never sleeps past the first deadline of the index *)
Punctual == (ppc = "wait" /\ idx # {} /\ ~permit) => (wake # 0 /\ wake <= Min(idx)[1])
(* whatever expires is reclaimed *)
Reclaimed == \A k \in Keys : Dead(dict[k]) ~> ~Dead(dict[k])
=============================================================================
