-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* One client connection.  What the client sends is a sequence of items,   *)
(* item j being the bytes up to position items[j].end (of the stream):     *)
(*   "good" a complete well-formed request                                 *)
(*   "bad"  a complete RESP value that is no well-formed request           *)
(*   "junk" bytes that are no prefix of any RESP value                     *)
(* possibly followed by an incomplete request.  The bytes arrive in        *)
(* arbitrary pieces.  The server answers a good item with exactly one      *)
(* reply, a bad one with one error or by closing, and closes after junk    *)
(* (one error may precede; it need not have seen all of the junk).  Nothing else is ever sent, nothing is sent    *)
(* before its item is complete, and nothing waits for more input.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* the part of a connection's state that survives a quiescent moment *)
Fresh == [j |-> 1, closed |-> FALSE]
Fail == [j |-> 0, closed |-> TRUE]

Start(items, j) == IF j = 1 THEN 0 ELSE items[j - 1].end
Begun(items, j, to) == j <= Len(items) /\ items[j].k = "junk" /\ Start(items, j) < to

(* c after "to" bytes have arrived and everything possible has been served, if the replies obs ("r" value, "e" error) and the   *)
(* fact shut were observed; Fail when that is impossible                                                                  *)
RECURSIVE Served(_, _, _, _, _)
Served(items, c, to, obs, shut) ==
    IF c.closed THEN IF obs = <<>> /\ shut THEN c ELSE Fail
    ELSE IF c.j > Len(items) \/ items[c.j].end > to
         THEN IF obs = <<>> /\ ~shut THEN c
              (* a few bytes can be enough to see that what comes is junk *)
              ELSE IF shut /\ obs \in {<<>>, <<"e">>} /\ Begun(items, c.j, to) THEN [j |-> c.j + 1, closed |-> TRUE]
              ELSE Fail
    ELSE LET k == items[c.j].k
             n == [c EXCEPT !.j = @ + 1]
             z == [n EXCEPT !.closed = TRUE]
         IN CASE k = "good" -> IF obs = <<>> THEN Fail ELSE Served(items, n, to, Tail(obs), shut)
              [] k = "bad" -> IF obs = <<>> THEN Served(items, z, to, obs, shut)
                              ELSE IF obs[1] = "e" THEN Served(items, n, to, Tail(obs), shut) ELSE Fail
              [] k = "junk" -> IF obs = <<"e">> THEN Served(items, z, to, <<>>, shut) ELSE Served(items, z, to, obs, shut)
=============================================================================
