-------------------------------- MODULE Judge --------------------------------
(* One line of output per judged case: "V|id|{reasons}"; no reasons = held.  *)
EXTENDS TLC, Sequences
Say(id, reasons) == PrintT("V|" \o id \o "|" \o ToString(reasons))
=============================================================================
