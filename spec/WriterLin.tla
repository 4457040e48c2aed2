------------------------------- MODULE WriterLin -------------------------------
(***************************************************************************)
(* Are recorded histories of concurrent calls on a Writer explained by     *)
(* WriterApi?  Every call must take effect atomically between its call and *)
(* its return, in an order that agrees with the order of the data in the   *)
(* output, the boundaries and headers of the streams in it, and the        *)
(* results of the calls.                                                   *)
(***************************************************************************)
EXTENDS WriterApi, FiniteSets, Judge, Json, IOUtils
VARIABLES tk, ti, tst, tord, tlin

Cases == ndJsonDeserialize(IOEnv.CASES)
If(b, r) == IF b THEN {r} ELSE {}

Flushed(o, t) == o.dec < 0 \/ o.dec >= t.vis

\* [s, d]: next contract states, and how many pieces of the output's data they use up
Works(c, s, o, y) ==
    CASE o.t = "W" -> IF o.n # o.len \/ ~o.ok THEN {}
                      ELSE IF o.len = 0 THEN {[s |-> s, d |-> 0]}
                      ELSE IF tord < Len(c.order)
                           THEN IF c.order[tord + 1] = y THEN {[s |-> WriteOK(s, o.len), d |-> 1]} ELSE {}
                           ELSE IF c.partid \in {0, y} \cup tlin THEN {[s |-> WriteOK(s, o.len), d |-> 0]} ELSE {}
      [] o.t = "F" -> LET t == FlushOK(s, o.f) IN IF Flushed(o, t) THEN {[s |-> t, d |-> 0]} ELSE {}
      [] o.t = "C" -> LET t == CloseOK(s) IN IF Flushed(o, t) THEN {[s |-> t, d |-> 0]} ELSE {}

\* a call that fails may have begun a stream that it would have begun if it had worked
Tried(s, o) == IF (o.t = "W" /\ o.len > 0 /\ s.ph # "open") \/ (s.ph = "none" /\ (o.t = "C" \/ o.f = "C"))
               THEN Begin(s) ELSE s

Fails(c, s, o, y) ==
    IF ~c.failed THEN {}
    ELSE {[s |-> IF o.t = "C" THEN FailClose(Tried(s, o), o.e) ELSE Fail(Tried(s, o), o.e),
           d |-> IF o.t = "W" /\ tord < Len(c.order) /\ c.order[tord + 1] = y THEN 1 ELSE 0]}

Effect(c, s, o, y) ==
    CASE o.t = "A" -> IF o.ok THEN {[s |-> s, d |-> 0]} ELSE {}
      [] o.t = "H" -> IF o.e = "nil" THEN {[s |-> SetHdr(s, y), d |-> 0]} ELSE {}
      [] OTHER ->
           LET ref == Refused(s) IN
           IF ref # "" THEN IF o.e = ref /\ o.n = 0
                            THEN {[s |-> IF o.t = "C" THEN [s EXCEPT !.ph = "closed"] ELSE s, d |-> 0]} ELSE {}
           ELSE IF o.e = "nil" THEN Works(c, s, o, y)
           ELSE IF o.e = "SINK" THEN Fails(c, s, o, y) ELSE {}

Pending(c) == {x \in 1..Len(c.ops) : (\E j \in 1..(ti - 1) : c.ev[j] = <<x - 1, 0>>)} \ tlin

Init == /\ tk \in 1..Len(Cases) /\ ti = 1 /\ tlin = {} /\ tord = 0 /\ tst = New(0)
Step ==
    LET c == Cases[tk] IN
    /\ ti \in 1..Len(c.ev) /\ c.fault = ""
    /\ LET e == c.ev[ti]  x == e[1] + 1 IN
       IF e[2] = 0 \/ x \in tlin THEN ti' = ti + 1 /\ UNCHANGED <<tk, tst, tord, tlin>>
       ELSE \E y \in Pending(c) : \E r \in Effect(c, tst, c.ops[y], y) :
                                  /\ tst' = r.s /\ tord' = tord + r.d
                                  /\ tlin' = tlin \cup {y}
                                  /\ UNCHANGED <<tk, ti>>
Prefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
Why(c) ==
    LET clean == tst.err = ""  done == clean /\ tst.ph \in {"closed", "between", "none"} IN
    If(c.late > 0, "underlying-writer-used-after-its-failure-or-Close")
    \cup If(c.overlap > 0, "concurrent-calls-of-the-underlying-writer")
    \cup If(c.live > 0, "goroutine-left-behind")
    \cup If(c.torn, "data-of-a-Write-is-not-contiguous")
    \cup If(tord # Len(c.order), "data-that-was-not-written")
    \cup If(~Prefix(c.starts, tst.starts), "data-in-the-wrong-stream")
    \cup If(c.fmt = "gzip" /\ ~Prefix(c.hdrs, tst.hdrs), "header-of-another-stream")
    \cup (IF ~done THEN {} ELSE
          If(c.starts # tst.starts, "number-of-streams")
          \cup If(c.size > 0 /\ c.err # "EOF", "output-not-complete-streams")
          \cup If(c.size > 0 /\ c.alts > 0, "output-relies-on-lenient-decoder")
          \cup If(c.part > 0, "data-lost"))
Fin == LET c == Cases[tk] IN
    /\ ti > 0
    /\ IF c.fault # "" THEN TRUE ELSE ti = Len(c.ev) + 1
    /\ Say(c.id, IF c.fault # "" THEN {c.fault} ELSE Why(c))
    /\ ti' = 0 /\ UNCHANGED <<tk, tst, tord, tlin>>
Next == Step \/ Fin
Spec == Init /\ [][Next]_<<tk, ti, tst, tord, tlin>>
ContractInv == ApiInv(tst)
=============================================================================
