------------------------------- MODULE ReaderGen -------------------------------
(***************************************************************************)
(* Generates the sequences of calls of one goroutine on one Reader:        *)
(* R1/RB read a little or a lot, RA read until an error, C close, X reset  *)
(* to another source, A accessors. One line "G|..." each.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES h, cl
RECURSIVE Str(_)
Str(q) == IF q = << >> THEN "" ELSE Head(q) \o " " \o Str(Tail(q))
Last == IF h = << >> THEN "" ELSE h[Len(h)]
Init == h = << >> /\ cl = FALSE
Next == /\ Len(h) < MaxLen
        /\ \E a \in Alphabet :
             /\ a = "A" => Last # "A"
             /\ a \in {"R1", "RB", "RA"} => Last # "RA"
             /\ h' = Append(h, a)
             /\ cl' = (a = "C" \/ (cl /\ a # "X"))
             /\ (Len(h') < MaxLen \/ PrintT("G|" \o Str(h')))
Spec == Init /\ [][Next]_<<h, cl>>
=============================================================================
