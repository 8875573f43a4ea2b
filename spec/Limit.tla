------------------------------- MODULE Limit -------------------------------
(***************************************************************************)
(* The connection limit.  open is the sequence of client connections that  *)
(* have not ended, in the order in which they were made; the server takes  *)
(* them up in that order and never more than n at a time.                  *)
(*                                                                         *)
(* A connection may end at any moment and in any way, also before it was   *)
(* taken up; each of these actions is named so that histories can be       *)
(* driven into the implementation:                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Endings == {"fin", "rst", "half", "shut", "junk", "bad", "error", "snapshot", "snapshot_cut", "unread"}

(* which connections are being served: the first n of those still open that have been taken up -- since ones that end make room  *)
(* in order of arrival, these are exactly the first n of the open ones                                                          *)
Served(open, n) == { open[i] : i \in 1..(IF Len(open) < n THEN Len(open) ELSE n) }

(* When the operating system has descriptors for fewer than n connections (room of them), the ones being served go on being     *)
(* served, and others are taken up, in order of arrival, while there is a descriptor for them.  With room >= n this is Served.  *)
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a
ServedNow(open, before, n, room) ==
    { open[i] : i \in 1..Most(Cardinality(before \cap Range(open)), Least(Len(open), Least(n, room))) }
=============================================================================
