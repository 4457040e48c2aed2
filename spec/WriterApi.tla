------------------------------- MODULE WriterApi -------------------------------
(***************************************************************************)
(* The Writer's contract as a state machine at the level of its calls.     *)
(*                                                                         *)
(* State of one epoch (the time between two Resets):                       *)
(*   ph     : "none"    nothing written yet                                *)
(*            "open"    inside a stream                                    *)
(*            "between" at least one stream written, none open             *)
(*            "failed"  the underlying writer has failed                   *)
(*            "closed"                                                     *)
(*   err    : the failure                                                  *)
(*   acc    : number of bytes accepted                                     *)
(*   vis    : number of bytes that must be recoverable from the output     *)
(*   bar    : no later back-reference may reach below this position        *)
(*   starts : where the data of each stream starts                         *)
(*   hdrs   : the header in effect for each stream,  hdr : the current one *)
(*   ended  : number of complete streams                                   *)
(*   nfl    : number of flushes of an open stream (for size bounds)        *)
(* An operator XxxOK(s, ..) is the state after the call if the underlying  *)
(* writer does not fail during it; Fail(s, e) if it does.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

New(h) == [ph |-> "none", err |-> "", acc |-> 0, vis |-> 0, bar |-> 0, starts |-> << >>, hdrs |-> << >>, hdr |-> h,
           ended |-> 0, nfl |-> 0]

Usable(s) == s.ph \in {"none", "open", "between"}

Begin(s) == [s EXCEPT !.ph = "open", !.starts = Append(@, s.acc), !.hdrs = Append(@, s.hdr), !.bar = s.acc]

WriteOK(s, n) ==
    IF n = 0 THEN s
    ELSE LET t == IF s.ph = "open" THEN s ELSE Begin(s) IN [t EXCEPT !.acc = @ + n]

Finish(s) ==    \* ends the current stream; emits an empty one if there never was any
    LET t == IF s.ph = "none" THEN Begin(s) ELSE s IN
    IF t.ph = "open" THEN [t EXCEPT !.ph = "between", !.ended = @ + 1, !.vis = t.acc] ELSE t

FlushTypes == {"B", "P", "S", "F", "C"}
FlushOK(s, f) ==
    CASE f = "C"      -> Finish(s)
      [] s.ph # "open" -> s
      [] f = "B"      -> [s EXCEPT !.nfl = @ + 1]
      [] f = "F"      -> [s EXCEPT !.nfl = @ + 1, !.vis = s.acc, !.bar = s.acc]
      [] OTHER        -> [s EXCEPT !.nfl = @ + 1, !.vis = s.acc]

CloseOK(s) == [Finish(s) EXCEPT !.ph = "closed"]

Fail(s, e)      == [s EXCEPT !.ph = "failed", !.err = e]
FailClose(s, e) == [s EXCEPT !.ph = "closed", !.err = e]
SetHdr(s, h)    == [s EXCEPT !.hdr = h]
CanReset(s)     == s.ph # "open"

\* the error that a call returns without touching the underlying writer ("" = it works)
Refused(s) == IF s.ph = "closed" THEN "CLOSED" ELSE IF s.ph = "failed" THEN s.err ELSE ""
\* does the call send anything?  (only decided for calls that must not)
Silent(s, op, n) ==
    \/ op = "W" /\ n = 0 /\ s.ph \in {"none", "between"}
    \/ op \in {"B", "P", "S", "F"} /\ s.ph \in {"none", "between"}
    \/ op \in {"C", "Close"} /\ s.ph = "between"
    \/ s.ph \in {"failed", "closed"}

ApiInv(s) ==
    /\ s.ph \in {"none", "open", "between", "failed", "closed"}
    /\ s.vis <= s.acc /\ s.bar <= s.acc
    /\ Len(s.starts) = Len(s.hdrs)
    /\ s.ended <= Len(s.starts) /\ Len(s.starts) <= s.ended + 1
    /\ s.ph = "none" => s.starts = << >> /\ s.acc = 0
    /\ s.ph = "open" => Len(s.starts) = s.ended + 1 /\ s.bar >= s.starts[Len(s.starts)]
    /\ s.ph = "between" => Len(s.starts) = s.ended /\ s.ended > 0 /\ s.vis = s.acc
    /\ \A i \in 2..Len(s.starts) : s.starts[i - 1] <= s.starts[i]
=============================================================================
