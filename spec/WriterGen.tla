------------------------------- MODULE WriterGen -------------------------------
(***************************************************************************)
(* Generates call sequences: every behaviour of the contract of up to      *)
(* MaxLen calls (over an abstract alphabet) which is not longer than       *)
(* needed, one line "G|a b c" each; they are replayed on the real Writer.  *)
(***************************************************************************)
EXTENDS WriterApi, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES s, h

After(t, a) ==
    CASE a \in {"W0", "W1", "W2"} -> IF Usable(t) THEN WriteOK(t, IF a = "W0" THEN 0 ELSE IF a = "W1" THEN 1 ELSE 2) ELSE t
      [] a \in {"FB", "FP", "FS", "FF", "FC"} ->
            IF Usable(t) THEN FlushOK(t, CASE a = "FB" -> "B" [] a = "FP" -> "P" [] a = "FS" -> "S" [] a = "FF" -> "F" [] OTHER -> "C") ELSE t
      [] a = "C" -> IF Usable(t) THEN CloseOK(t) ELSE t
      [] a = "R" -> New("h")
RECURSIVE Str(_)
Str(q) == IF q = << >> THEN "" ELSE Head(q) \o " " \o Str(Tail(q))

Init == s = New("h") /\ h = << >>
Next == /\ Len(h) < MaxLen
        /\ \E a \in Alphabet :
             /\ a = "R" => CanReset(s) /\ h # << >> /\ h[Len(h)] # "R"
             /\ s' = After(s, a) /\ h' = Append(h, a)
             /\ (Len(h') < MaxLen \/ PrintT("G|" \o Str(h')))
Spec == Init /\ [][Next]_<<s, h>>
Contract == ApiInv(s)
=============================================================================
