------------------------------ MODULE FactTrace ------------------------------
(***************************************************************************)
(* Reader conformance for inputs that are too big for InflateTrace: the    *)
(* expectation was computed by the Go transliteration of module Inflate,   *)
(* the judgement is the same (module Outcome).                             *)
(***************************************************************************)
EXTENDS Outcome, Judge, Json, IOUtils
VARIABLES tk
Cases == ndJsonDeserialize(IOEnv.CASES)
Exp(c) == [err |-> c.orc.err, n |-> c.orc.n, full |-> c.orc.full, alts |-> ToSet(c.orc.alts), ev |-> c.orc.ev]
Init == tk \in 1..Len(Cases)
Next == /\ tk > 0
        /\ Say(Cases[tk].id, CaseWhy(Exp(Cases[tk]), Cases[tk].fault, Cases[tk].obs))
        /\ tk' = -tk
Spec == Init /\ [][Next]_tk
=============================================================================
