------------------------------- MODULE MCObey -------------------------------
(***************************************************************************)
(* Every sequence of answers a placement driver can give, Depth long; a    *)
(* state is the answers given last, printed with the answer that follows.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Letters, Depth
VARIABLE last
Init == last = <<>>
Push(x) == IF Len(last) < Depth THEN Append(last, x) ELSE Append(Tail(last), x)
Next == \E x \in Letters : last' = Push(x) /\ PrintT("TR " \o ToJson([a |-> last, o |-> x, b |-> Push(x)]))
Spec == Init /\ [][Next]_last
=============================================================================
