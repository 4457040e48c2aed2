------------------------------- MODULE ReaderLin -------------------------------
(***************************************************************************)
(* Are recorded histories of concurrent calls on a Reader explained by     *)
(* ReaderApi?  Every call must take effect atomically at some moment       *)
(* between its call and its return.                                        *)
(***************************************************************************)
EXTENDS ReaderApi, Judge, Json, IOUtils
VARIABLES tk, ti, tst, tlin

Cases == ndJsonDeserialize(IOEnv.CASES)
If(b, r) == IF b THEN {r} ELSE {}

Effect(c, s, o) ==
    CASE o.t = "R" -> ReadMay(s, c.srcs[s.src + 1], o)
      [] o.t = "C" -> CloseMay(s, o)
      [] o.t = "X" -> ResetMay(s, o.m)
      [] o.t = "A" -> IF o.ok THEN {s} ELSE {}

Pending(c) == {x \in 1..Len(c.ops) : (\E j \in 1..(ti - 1) : c.ev[j] = <<x - 1, 0>>)} \ tlin

Init == /\ tk \in 1..Len(Cases) /\ ti = 1 /\ tlin = {} /\ tst = NewReader(0)
Step ==
    LET c == Cases[tk] IN
    /\ ti \in 1..Len(c.ev) /\ c.fault = ""
    /\ LET e == c.ev[ti]  x == e[1] + 1 IN
       IF e[2] = 0 \/ x \in tlin THEN ti' = ti + 1 /\ UNCHANGED <<tk, tst, tlin>>
       ELSE \E y \in Pending(c) : /\ tst' \in Effect(c, tst, c.ops[y])
                                  /\ tlin' = tlin \cup {y}
                                  /\ UNCHANGED <<tk, ti>>
Why(c) ==
    If(c.late > 0, "old-source-used-after-Close-or-Reset")
    \cup If(c.live > 0 /\ ~MayLinger(tst), "goroutine-left-behind")
    \cup If(c.live > 1, "goroutines-left-behind")
Fin == LET c == Cases[tk] IN
    /\ ti > 0
    /\ IF c.fault # "" THEN TRUE ELSE ti = Len(c.ev) + 1
    /\ Say(c.id, IF c.fault # "" THEN {c.fault} ELSE Why(c))
    /\ ti' = 0 /\ UNCHANGED <<tk, tst, tlin>>
Next == Step \/ Fin
Spec == Init /\ [][Next]_<<tk, ti, tst, tlin>>
=============================================================================
