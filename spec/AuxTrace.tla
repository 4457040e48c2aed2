-------------------------------- MODULE AuxTrace --------------------------------
(***************************************************************************)
(* Uses of the helpers around headers and events. A tracer is a state      *)
(* machine driven by the events: TracerFunc and Log add the event to what  *)
(* they have, CaptureHeader replaces its header at each header event,      *)
(* NoOpTracer has no state.                                                *)
(***************************************************************************)
EXTENDS Extra, Judge, Json, IOUtils
VARIABLES tk, ti, cap, twhy
Cases == ndJsonDeserialize(IOEnv.CASES)
If(b, r) == IF b THEN {r} ELSE {}
Traced(c) == c.fault = "" /\ c.obs.t \in {"read", "write"}
NoHeader == [name |-> <<115, 101, 110, 116, 105, 110, 101, 108>>, comment |-> << >>, mtime |-> <<0, 0>>, hastime |-> FALSE, text |-> "unknown",
             os |-> "unknown", extra |-> << >>, wb |-> 0, lvl |-> 0]
OwnHdr(e) == "h" \in DOMAIN e
\* the tracer's state after event e
Captures(h, e) == IF e.t = "SH" /\ OwnHdr(e) THEN e.h ELSE h

Init == tk \in 1..Len(Cases) /\ ti = 1 /\ cap = NoHeader /\ twhy = {}
Step ==
    LET c == Cases[tk] IN
    /\ ti > 0 /\ Traced(c) /\ ti <= Len(c.obs.evs)
    /\ LET o == c.obs
           e == o.evs[ti] IN
       /\ cap' = Captures(cap, e)
       /\ twhy' = twhy \cup If(ti > Len(o.fn) \/ (ti <= Len(o.fn) /\ o.fn[ti] # e), "TracerFunc-sees-other-events")
                     \cup If(ti > Len(o.last) \/ (ti <= Len(o.last) /\ o.last[ti] # e), "the-last-tracer-sees-other-events")
                     \cup If(ti > Len(o.log) \/ (ti <= Len(o.log) /\ o.log[ti] # e), "Log-shows-other-events")
                     \cup If(ti > Len(o.caps) \/ (ti <= Len(o.caps) /\ o.caps[ti] # cap'), "captured-header")
    /\ ti' = ti + 1 /\ UNCHANGED tk
EndWhy(o) ==
    CASE o.t = "parse" -> If(o.recs # Parse(o.b), "records-parsed") \cup If(o.out # Enc(o.recs), "AsBytes") \cup If(o.mod, "the-argument-is-changed")
      [] o.t = "enc"   -> If(o.out # Enc(o.recs), "AsBytes") \cup If(o.back # o.recs, "Parse-of-AsBytes") \cup If(o.mod, "the-argument-is-changed")
      [] OTHER -> LET n == Len(o.evs) IN
                  If(Len(o.fn) # n \/ Len(o.last) # n \/ Len(o.caps) # n, "tracers-see-different-numbers-of-events")
                  \cup If(o.nlog # n \/ o.odd # << >>, "Log-lines")
                  \cup If(o.quiet # 0, "Log-above-trace-level")
                  \cup If(o.final # cap, "captured-header-changes-later")
Fin ==
    LET c == Cases[tk] IN
    /\ ti > 0 /\ (IF Traced(c) THEN ti = Len(c.obs.evs) + 1 ELSE TRUE)
    /\ Say(c.id, IF c.fault # "" THEN {c.fault} ELSE twhy \cup EndWhy(c.obs))
    /\ ti' = 0 /\ UNCHANGED <<tk, cap, twhy>>
Next == Step \/ Fin
Spec == Init /\ [][Next]_<<tk, ti, cap, twhy>>
=============================================================================
