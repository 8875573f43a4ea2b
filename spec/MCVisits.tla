------------------------------ MODULE MCVisits ------------------------------
(***************************************************************************)
(* One key used, replaced and left alone for a while; uses, born and last  *)
(* are history variables: how often and when it was really used.  Wrong    *)
(* designs (Design # "right") must be refuted.                             *)
(***************************************************************************)
EXTENDS Visits, TLC
CONSTANTS MaxS, MaxUses, Steps, Design
VARIABLES s, S, uses, born, last, gaps
vars == <<s, S, uses, born, last, gaps>>

Dec(l, t) == IF Design = "stale" THEN LET d == (Minute(t) - l.m) % Mod IN IF d > l.f THEN 0 ELSE l.f - d
             ELSE IF Design = "unwrapped" THEN LET d == Minute(t) - l.m IN IF d > l.f THEN 0 ELSE l.f - d
             ELSE Decayed(l, t)
One(l, t) == IF Design = "right" THEN Used(l, 1, t)
             ELSE LET x == Dec(l, t) + 1 IN
                  [f |-> IF x > Cap /\ Design # "uncapped" THEN Cap ELSE x, m |-> IF Design = "stale" THEN l.m ELSE Minute(t), a |-> IF Design = "unseen" THEN l.a ELSE t]

Init == s = 60 /\ S = {Log(First, 60, 60)} /\ uses = 0 /\ born = 60 /\ last = 60 /\ gaps = 0
Use == /\ uses < MaxUses
       /\ S' = { One(l, s) : l \in S } /\ uses' = uses + 1 /\ last' = s
       /\ UNCHANGED <<s, born, gaps>>
Store == /\ S' = {Log(First, s, s)} /\ uses' = 0 /\ born' = s /\ last' = s /\ gaps' = 0
         /\ UNCHANGED s
Wait == \E d \in Steps : /\ s + d <= MaxS
                         /\ s' = s + d
                         /\ gaps' = (s + d) \div 60 - born \div 60
                         /\ UNCHANGED <<S, uses, born, last>>
Next == Use \/ Store \/ Wait
Spec == Init /\ [][Next]_vars

Bounded == \A l \in S : l.f \in 0..Cap
\* one log when nothing is uncertain, and it knows when the key was last used
Exact == Cardinality(S) = 1 /\ \A l \in S : l.a = last /\ l.m = Minute(last)
NeverMore == \A l \in S : l.f <= First + uses
\* what time takes away is at most one per minute
NeverLess == \A l \in S : l.f >= IF First + uses - gaps > Cap - gaps THEN Cap - gaps ELSE First + uses - gaps
\* a key that was just used has been used at least once
JustUsed == (uses > 0 /\ last = s) => \A l \in S : l.f >= 1
\* a key left alone for long enough starts over (with time that does not come round: Mod minutes)
Forgotten == [][(Use /\ s \div 60 - last \div 60 \in Cap..(Mod - 1)) => \A l \in S' : l.f = 1]_vars
\* every reply that the right design can give, and no other, leaves a possible log
Answers == \A l \in S : \A r \in 0..Cap + 1 : (FreqIs(S, r) # {}) = (\E k \in S : k.f = r)
=============================================================================
