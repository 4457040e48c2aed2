------------------------------- MODULE HugeTrace -------------------------------
(***************************************************************************)
(* Executions of the real Reader and Writer on huge streams, against the   *)
(* trailers and counts of module Huge.                                     *)
(***************************************************************************)
EXTENDS Huge, Judge, Json, IOUtils
VARIABLES tk, mi, pi, st, tot, good, twhy
vars == <<tk, mi, pi, st, tot, good, twhy>>
Cases == ndJsonDeserialize(IOEnv.CASES)
If(b, r) == IF b THEN {r} ELSE {}
Init == tk \in 1..Len(Cases) /\ mi = 1 /\ pi = 1 /\ st = Fresh /\ tot = Z4 /\ good = TRUE /\ twhy = {}
Run(c) == mi > 0 /\ c.fault = "" /\ good /\ mi <= Len(c.obs.mem)
\* one part of a stream
Part ==
    LET c == Cases[tk] IN
    /\ Run(c) /\ pi <= Len(c.obs.mem[mi].parts)
    /\ st' = Move(st, c.obs.mem[mi].parts[pi])
    /\ pi' = pi + 1 /\ UNCHANGED <<tk, mi, tot, good, twhy>>
Sum(f) == CASE f = "gzip" -> st.crc [] f = "zlib" -> st.adl [] OTHER -> <<0, 0>>
\* the end of a stream: is the trailer right, and what is reported?
End ==
    LET c == Cases[tk]  o == c.obs  m == o.mem[mi]
        ok == /\ o.fmt # "raw" => m.sum = Sum(o.fmt)
              /\ o.fmt = "gzip" => m.isize = Low32(st.len)
        SE == SelectSeq(o.ev, LAMBDA e : e.t = "SE")
        t2 == Add4(tot, st.len)
        e == SE[mi]
    IN
    /\ Run(c) /\ pi = Len(m.parts) + 1
    /\ good' = (o.side = "W" \/ ok)
    /\ tot' = t2
    /\ mi' = mi + 1 /\ pi' = 1 /\ st' = Fresh /\ UNCHANGED tk
    /\ twhy' = twhy
         \cup (IF o.side = "R" /\ ~ok THEN If(Len(SelectSeq(o.ev, LAMBDA x : x.t = "SC")) # mi - 1, "close-event-of-a-bad-stream")
               ELSE IF Len(SE) < mi THEN {"missing-end-event"}
               ELSE LET raw == IF o.side = "R" THEN e.out ELSE e.in
                        rawT == IF o.side = "R" THEN e.outT ELSE e.inT IN
                    If(raw # st.len, "count-of-the-stream") \cup If(rawT # t2, "count-of-all-streams")
                    \cup If(e.ns # mi, "number-of-streams")
                    \cup If(o.fmt = "gzip" /\ e.c32 # st.crc, "CRC-in-event") \cup If(o.fmt = "zlib" /\ e.a32 # st.adl, "Adler-in-event"))
         \cup (IF o.side = "W" /\ mi = Len(o.mem)
               THEN LET want == CASE o.fmt = "gzip" -> Bytes32le(st.crc) \o Bytes32le(Low32(st.len))
                                  [] o.fmt = "zlib" -> Bytes32be(st.adl)
                                  [] OTHER -> << >> IN
                    If(SubSeq(o.tail, Len(o.tail) - Len(want) + 1, Len(o.tail)) # want, "trailer")
               ELSE {})
Fin ==
    LET c == Cases[tk]  o == c.obs IN
    /\ mi > 0 /\ ~Run(c)
    /\ Say(c.id, IF c.fault # "" THEN {c.fault} ELSE twhy
           \cup If(o.n # tot, "amount-of-data") \cup If(~o.same, "other-data")
           \cup If(o.err # (IF good THEN "EOF" ELSE "CORRUPT"), "reported-" \o o.err \o "-instead-of-" \o (IF good THEN "EOF" ELSE "CORRUPT"))
           \cup (IF good /\ o.ev # << >> THEN
                   LET e == o.ev[Len(o.ev)] IN
                   If(e.t # "SC", "no-close-event")
                   \cup If((IF o.side = "R" THEN e.inT ELSE e.outT) # o.size, "size-of-the-compressed-data")
                   \cup If((IF o.side = "R" THEN e.outT ELSE e.inT) # tot, "final-count")
                 ELSE {}))
    /\ mi' = 0 /\ UNCHANGED <<tk, pi, st, tot, good, twhy>>
Next == Part \/ End \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
