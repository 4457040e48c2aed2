----------------------------- MODULE DeflateTrace -----------------------------
(***************************************************************************)
(* Bit-exact conformance of Writer output: the decoder machine runs over   *)
(* everything a Writer has sent to its sink. For a closed Writer it must   *)
(* find complete streams only, without recourse to any lenience of the     *)
(* RFCs, and exactly the data written; the Writer's tracer events must be  *)
(* those of the machine (seen from the other side).                        *)
(***************************************************************************)
EXTENDS Inflate, Outcome, InflateEvents, Judge, Json, IOUtils

VARIABLES tk, ts

Cases == ndJsonDeserialize(IOEnv.CASES)

Swap(e) == [e EXCEPT !.in = e.out, !.out = e.in, !.inT = e.outT, !.outT = e.inT]

WHdrOK(c, f, h, g) ==
    /\ g.lvl = c.lvl /\ g.wb = c.wb
    /\ f = "gzip" => /\ g.name = h.name /\ g.comment = h.comment
                     /\ g.text = h.text /\ g.os = h.os
                     /\ (h.hastime => g.hastime /\ g.mtime = h.mtime)
                     /\ (g.hastime => g.mtime = h.mtime)
                     /\ g.extra = h.extra

WEvMatch(c, e, x) ==
    IF e.t = "SH" THEN x.t = "SH" /\ x.fmt = e.fmt /\ x.has = "h" /\ WHdrOK(c, e.fmt, e.h, x.h)
    ELSE EvMatch(e, x)

EventsWhy(c, st) ==
    IF ~c.hasev THEN {}
    ELSE LET ex == [i \in 1..Len(st.ev) |-> NormEv(st.ev[i])]
             ob == [i \in 1..Len(c.ev) |-> Swap(c.ev[i])]
             n == Min({Len(ex), Len(ob)})
             bad == {i \in 1..n : ~WEvMatch(c, ex[i], ob[i])}
         IN (IF ~c.ev2 THEN {"tracers-saw-different-events"} ELSE {}) \cup
            (IF ~Counters(ob) THEN {"event-counters"} ELSE {}) \cup
            (IF bad # {} THEN {"event-" \o ob[Min(bad)].t \o "-instead-of-" \o ex[Min(bad)].t \o "-or-untrue"}
             ELSE IF ~c.closed THEN {}
             ELSE IF Len(ob) > Len(ex) THEN {"event-that-did-not-happen:" \o ob[n + 1].t}
             ELSE IF Len(ob) < Len(ex) THEN {"event-missing:" \o ex[n + 1].t}
             ELSE {})

Verdict(c, st) ==
    LET out == Full(st) IN
    (IF c.closed /\ st.err # "EOF" THEN {"output-not-complete-streams:" \o st.err} ELSE {})
    \cup (IF ~c.closed /\ st.err = "CORRUPT" THEN {"output-corrupt"} ELSE {})
    \cup (IF c.closed /\ st.alt # {} THEN {"output-relies-on-lenient-decoder"} ELSE {})
    \cup (IF c.closed /\ out # c.want THEN {"output-denotes-other-data"} ELSE {})
    \cup (IF ~c.closed /\ ~IsPrefix(out, c.want) THEN {"output-denotes-other-data"} ELSE {})
    \cup EventsWhy(c, st)
    \cup (IF /\ c.orcerr = st.err /\ c.orcn = NOut(st) /\ c.orcalts = Cardinality(st.alt)
             /\ Len(c.orcmem) = st.nm
          THEN {} ELSE {"ORACLE"})

Init == tk \in 1..Len(Cases) /\ ts = Start(Cases[tk])
Run == /\ ts.phase \notin {"done", "judged"}
       /\ ts' = Step(Cases[tk], ts)
       /\ UNCHANGED tk
Jdg == /\ ts.phase = "done"
       /\ Say(Cases[tk].id, Verdict(Cases[tk], ts))
       /\ ts' = [ts EXCEPT !.phase = "judged"]
       /\ UNCHANGED tk
Next == Run \/ Jdg
Spec == Init /\ [][Next]_<<tk, ts>>
MachineSane == ts.phase = "judged" \/ Sane(Cases[tk], ts)
View == <<tk, ts.p, ts.phase, NOut(ts)>>
=============================================================================
