----------------------------- MODULE InflateTrace -----------------------------
(***************************************************************************)
(* Bit-exact conformance: the decoder machine runs over each recorded case *)
(* and, when it is done, its verdict is compared with                      *)
(*   - what the real Reader did with the same bytes (all variants), and    *)
(*   - what the Go oracle says (which is used alone for big inputs).       *)
(* A line "V|id|reasons" is printed for every case;      the oracle must  *)
(* agree in every respect (reason "ORACLE").                               *)
(***************************************************************************)
EXTENDS Inflate, Outcome, InflateEvents, Judge, Json, IOUtils

VARIABLES tk, ts

Cases == ndJsonDeserialize(IOEnv.CASES)
ExpOf(st) == [err |-> st.err, n |-> NOut(st), full |-> Len(Full(st)), alts |-> st.alt,
              ev |-> [i \in 1..Len(st.ev) |-> NormEv(st.ev[i])]]

\* agreement of the oracle with the machine
OracleOK(e, full, orc) ==
    /\ orc.err = e.err /\ orc.n = e.n /\ orc.full = e.full
    /\ orc.out \o orc.part = full
    /\ ToSet(orc.alts) = e.alts
    /\ Len(orc.ev) = Len(e.ev)
    /\ \A i \in 1..Len(e.ev) : EvMatch(e.ev[i], [orc.ev[i] EXCEPT !.has =
            CASE e.ev[i].t = "SH" -> "h" [] e.ev[i].t \in {"BB", "BE"} -> "b" [] e.ev[i].t = "BT" -> "bt" [] e.ev[i].t = "SE" -> "f" [] OTHER -> ""])

\* Where errors say the input is corrupt: in which stream, and near which byte.
\* The element that is found to be corrupt starts at bit st.p.
If(b, r) == IF b THEN {r} ELSE {}
\* The place is in that element or up to a machine word behind it.
Reach(at) == CASE at = "blk" -> 1 [] at = "stored" -> 5 [] at = "sym" -> 7 [] at = "ftr" -> 8
               [] at = "trees" -> 600 [] OTHER -> 70000
WhereWhy(c, st, x) ==
    LET pos == st.mstart + x.str IN
    If(~x.txt, "corruption-error-without-description")
    \cup If(x.tot >= 0 /\ x.tot - x.str # st.mstart, "offsets-in-error:not-from-the-start-of-the-stream")
    \cup If(pos > Len(c.b), "offset-in-error:beyond-the-input")
    \cup If(pos < (st.p + 7) \div 8, "offset-in-error:before-the-damage")
    \cup If(pos > (st.p + 7) \div 8 + Reach(st.at) + 8, "offset-in-error:behind-the-damage")

\* Where the decoder, or a permitted stricter one, stops with CORRUPT.
Stops(st) == st.am \cup (IF st.err = "CORRUPT" THEN {[mstart |-> st.mstart, p |-> st.p, at |-> st.at]} ELSE {})
WhereJudge(c, st, x) ==
    LET S == Stops(st) IN
    IF S = {} \/ \E a \in S : WhereWhy(c, a, x) = {} THEN {}
    ELSE WhereWhy(c, CHOOSE a \in S : TRUE, x)

Verdict(c, st) ==
    LET e == ExpOf(st)  full == Full(st) IN
    CaseWhy(e, c.fault, [i \in 1..Len(c.obs) |->
                [c.obs[i] EXCEPT !.common = CommonFrom(full, c.obs[i].out, 1)]])
    \cup (IF c.where
          THEN UNION {UNION {WhereJudge(c, st, c.obs[i].offs[j]) : j \in 1..Len(c.obs[i].offs)} : i \in 1..Len(c.obs)}
          ELSE {})
    \cup (IF OracleOK(e, full, c.orc) THEN {} ELSE {"ORACLE"})

Init == tk \in 1..Len(Cases) /\ ts = Start(Cases[tk])

Run == /\ ts.phase \notin {"done", "judged"}
       /\ ts' = Step(Cases[tk], ts)
       /\ UNCHANGED tk
Judge == /\ ts.phase = "done"
         /\ Say(Cases[tk].id, Verdict(Cases[tk], ts))
         /\ ts' = [ts EXCEPT !.phase = "judged"]
         /\ UNCHANGED tk
Next == Run \/ Judge
Spec == Init /\ [][Next]_<<tk, ts>>

MachineSane == ts.phase = "judged" \/ Sane(Cases[tk], ts)
View == <<tk, ts.p, ts.phase, NOut(ts)>>
=============================================================================
