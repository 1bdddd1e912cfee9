------------------------------- MODULE NibTrace ------------------------------
(***************************************************************************)
(* Validation of recorded histories of keys under compositions of          *)
(* operations: results feed later operations.                              *)
(***************************************************************************)
EXTENDS Nibs, TLC, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)

VARIABLES ep, i, s
vars == <<ep, i, s>>

Init == ep \in 1..Len(T) /\ i = 1 /\ s = <<>>

\* `take` continues with the given key, e.g. a result of the last operation.
Expected(e) == IF e.op = "take" THEN Ok(e.t, <<>>, 0) ELSE NibOp(e.op, s, e.t, e.a, e.b)

Next ==
    /\ i <= Len(T[ep])
    /\ LET e == T[ep][i]
           x == Expected(e)
           ok == e.r = x.r /\ (x.r = "ok" => e.s = x.s /\ e.o = x.o /\ e.n = x.n)
       IN IF ok THEN s' = x.s /\ i' = i + 1 /\ ep' = ep
          ELSE /\ PrintT(ToJson([q |-> "BAD", ep |-> ep, i |-> i, expected |-> x]))
               /\ i' = Len(T[ep]) + 1 /\ UNCHANGED <<ep, s>>
=============================================================================
