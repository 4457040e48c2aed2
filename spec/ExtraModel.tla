------------------------------- MODULE ExtraModel -------------------------------
(* Parse and Enc are inverses: checked on every string over three bytes up   *)
(* to a length, which TLC builds byte by byte.                               *)
EXTENDS Extra, TLC
CONSTANT MaxLen
VARIABLE b
Init == b = << >>
Next == Len(b) < MaxLen /\ \E x \in 0..2 : b' = Append(b, x)
Spec == Init /\ [][Next]_b
EncOfParse == IsPrefix(Enc(Parse(b)), b)
ParseOfEnc == Parse(Enc(Parse(b))) = Parse(b)
\* what is left over is no further record
Maximal == Parse(Rest(b, Len(Enc(Parse(b))))) = << >>
\* reading more never takes a record back
Monotone == [][IsPrefix(Parse(b), Parse(b'))]_b
=============================================================================
