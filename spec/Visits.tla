------------------------------- MODULE Visits -------------------------------
(***************************************************************************)
(* How often and how long ago a key was used, as OBJECT FREQ and OBJECT    *)
(* IDLETIME tell it.                                                       *)
(*                                                                         *)
(* A use log is a record: f, the counter; m, the minute (modulo Mod) up to *)
(* which the counter has been decayed; a, the second of the last use.  A   *)
(* use first takes one off the counter for every minute that began since   *)
(* m, not below 0, and then adds one, not beyond Cap.                      *)
(*                                                                         *)
(* How often one command looks a key up is not fixed (at least once for    *)
(* each time it names the key, at most twice; perhaps not at all when it   *)
(* is refused), so what is known of a key is a set of logs: those that are *)
(* possible given what was observed.  An observation narrows the set.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Cap, Mod, First, Grain

Minute(s) == (s \div 60) % Mod

Log(f, s, a) == [f |-> f, m |-> Minute(s), a |-> a]
Decayed(l, s) == LET d == (Minute(s) - l.m) % Mod IN IF d > l.f THEN 0 ELSE l.f - d
Used(l, n, s) == IF n = 0 THEN l
                 ELSE LET x == Decayed(l, s) + n IN Log(IF x > Cap THEN Cap ELSE x, s, s)

\* possible logs after between lo and hi uses at second s
Touch(S, lo, hi, s) == { Used(l, n, s) : l \in S, n \in lo..hi }
\* of a value just stored
Fresh(s) == { Log(First, s, s), Log(First + 1, s, s) }
\* of a value just restored that claims frequency f and to have been idle for i seconds (-1: no claim)
Restored(s, i, f) ==
    { Log(IF f < 0 THEN 0 ELSE IF f > Cap THEN Cap ELSE f, s, IF i < 0 THEN s ELSE IF i > s THEN 0 ELSE s - i) }

\* the logs that agree with a reply r (a number) to OBJECT FREQ, OBJECT IDLETIME at second s
FreqIs(S, r) == { l \in S : l.f = r }
IdleIs(S, r, s) == { l \in S : r >= s - l.a /\ r < s - l.a + Grain }
=============================================================================
