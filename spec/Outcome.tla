------------------------------- MODULE Outcome -------------------------------
(***************************************************************************)
(* When does an observation of a Reader agree with what the decoder state  *)
(* machine (module Inflate) says?                                          *)
(*                                                                         *)
(* An *expectation* is  [err, n, full, alts, ev] :                         *)
(*   err, n : verdict and number of bytes before it                        *)
(*   full   : number of bytes of all data that could ever be delivered     *)
(*   alts   : alternative outcomes [err, lo, hi]                           *)
(*   ev     : the tracer events implied                                    *)
(* An *observation* is [err, n, common, sticky, hasev, ev, ev2] where      *)
(*   common : length of the common prefix of the data with the full data   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

MainOutcome(e, o) == o.err = e.err /\ o.n = e.n
AltOutcome(e, o)  == \E a \in e.alts : o.err = a.err /\ o.n >= a.lo /\ o.n <= a.hi

\* why an outcome is refused
OutcomeWhy(e, o) ==
    IF o.common # o.n THEN
         (IF o.n > e.full /\ o.common = e.full THEN "more-data-than-the-stream-holds" ELSE "wrong-data")
    ELSE IF MainOutcome(e, o) \/ AltOutcome(e, o) THEN ""
    ELSE IF o.err = "EOF" THEN (IF e.err = "EOF" THEN "data-lost-before-EOF" ELSE "reported-EOF-instead-of-" \o e.err)
    ELSE IF e.err = "EOF" THEN "refused-a-valid-stream:" \o o.err
    ELSE IF o.err # e.err THEN "wrong-error:" \o o.err \o "-instead-of-" \o e.err
    ELSE "wrong-amount-of-data-before-" \o o.err

----------------------------------------------------------------------------
RECURSIVE TrimZ(_)
TrimZ(x) == IF x = << >> \/ x[Len(x)] # 0 THEN x ELSE TrimZ(SubSeq(x, 1, Len(x) - 1))

\* does observed event x correspond to expected event e?
HdrOK(f, h, g) ==    \* h expected, g observed
    /\ f = "raw" \/ g.lvl = h.lvl
    /\ f = "zlib" => g.wb = h.wb
    /\ f = "gzip" => /\ g.name = h.name /\ g.comment = h.comment
                     /\ g.text = h.text /\ g.os = h.os
                     /\ g.hastime = h.hastime /\ (h.hastime => g.mtime = h.mtime)
                     /\ g.extra = h.extra

EvMatch(e, x) ==
    /\ x.t = e.t
    /\ CASE e.t = "SB" -> x.in = 0 /\ x.out = 0
         [] e.t = "SH" -> x.fmt = e.fmt /\ x.has = "h" /\ HdrOK(e.fmt, e.h, x.h)
         [] e.t \in {"BB", "BE"} -> x.has = "b" /\ x.typ = e.typ /\ x.fin = e.fin
         [] e.t = "BT" -> /\ x.has = "bt" /\ x.typ = e.typ /\ x.fin = e.fin
                          /\ x.ll = e.ll
                          /\ IF e.typ = "static"
                             THEN Len(x.d) \in 30..32 /\ \A i \in 1..Len(x.d) : x.d[i] = 5
                             ELSE x.d = e.d /\ x.x = e.x /\ x.nx = e.nx /\ x.nll = e.nll /\ x.nd = e.nd
         [] e.t = "SE" -> x.has = "f" /\ x.in = e.in /\ x.out = e.out /\ x.a32 = e.a32 /\ x.c32 = e.c32
         [] e.t = "SC" -> x.in = e.in /\ x.out = e.out
         [] OTHER -> FALSE

\* counters: they restart with each stream and never go back
Counters(ev) ==
    \A i \in 2..Len(ev) :
        LET p == ev[i - 1]  x == ev[i] IN
        /\ x.inT >= p.inT /\ x.outT >= p.outT
        /\ IF x.t = "SB" THEN x.in = 0 /\ x.out = 0 /\ x.ns = p.ns + 1
           ELSE x.in >= p.in /\ x.out >= p.out /\ x.ns = p.ns
                /\ x.inT - p.inT = x.in - p.in /\ x.outT - p.outT = x.out - p.out

\* the block of an unknown type may or may not be announced
DropBad(ev) == IF ev # << >> /\ ev[Len(ev)].t = "BB" /\ ev[Len(ev)].typ = "bad" THEN SubSeq(ev, 1, Len(ev) - 1) ELSE ev

EvWhy(e, o) ==
    IF ~o.hasev THEN ""
    ELSE LET ex == DropBad(e.ev)  ob == DropBad(o.ev)
             n == Min({Len(ex), Len(ob)})
             bad == {i \in 1..n : ~EvMatch(ex[i], ob[i])}
         IN IF bad # {} THEN "event-" \o ob[Min(bad)].t \o "-instead-of-" \o ex[Min(bad)].t \o "-or-untrue"
            ELSE IF Len(ob) > Len(ex) THEN "event-that-did-not-happen:" \o ob[n + 1].t
            ELSE IF Len(ob) < Len(ex) /\ (e.err = "EOF" \/ (MainOutcome(e, o) /\ Len(ob) < Len(ex) - 1))
                 THEN "event-missing:" \o ex[n + 1].t
            ELSE IF ob # << >> /\ ob[1].ns # 1 THEN "stream-number"
            ELSE IF ~Counters(ob) THEN "event-counters"
            ELSE IF ~o.ev2 THEN "tracers-saw-different-events"
            ELSE ""

ObsWhy(e, o) ==
    LET w == OutcomeWhy(e, o) IN
    IF w # "" THEN w
    ELSE IF ~o.sticky THEN "error-not-sticky"
    ELSE EvWhy(e, o)

\* all observations of one case; they must also agree with each other
CaseWhy(e, fault, obs) ==
    IF fault # "" THEN {fault}
    ELSE ({ObsWhy(e, obs[i]) : i \in 1..Len(obs)} \ {""})
         \cup (IF \E i, j \in 1..Len(obs) : obs[i].err # obs[j].err \/ obs[i].n # obs[j].n
               THEN {"result-depends-on-how-it-is-read"} ELSE {})
         \cup (IF obs = << >> THEN {"nothing-observed"} ELSE {})
=============================================================================
