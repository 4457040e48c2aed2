----------------------------- MODULE ChecksumTrace -----------------------------
(***************************************************************************)
(* A checksum hash is a state machine whose state is the sum of the bytes  *)
(* written since it was made or reset: Write moves it on by the bytes one  *)
(* by one (module Bits), however they are divided; reading does not move   *)
(* it. For big inputs the bytes stay outside; the state then follows a     *)
(* reference implementation, which is itself compared with Bits on all     *)
(* the others.                                                             *)
(***************************************************************************)
EXTENDS Bits, Judge, Json, IOUtils
VARIABLES tk, ti, sum, twhy
Cases == ndJsonDeserialize(IOEnv.CASES)
If(b, r) == IF b THEN {r} ELSE {}
Start(alg) == IF alg = "crc" THEN <<0, 0>> ELSE <<0, 1>>
Move(alg, s, b) == IF alg = "crc" THEN Crc32Update(s, b) ELSE Adler32Update(s, b)
Init == tk \in 1..Len(Cases) /\ ti = 1 /\ sum = Start(IF Cases[tk].fault = "" THEN Cases[tk].obs.alg ELSE "crc") /\ twhy = {}
Step ==
    LET c == Cases[tk] IN
    /\ ti > 0 /\ c.fault = "" /\ ti <= Len(c.obs.ops)
    /\ LET o == c.obs.ops[ti]
           s == CASE o.t = "W" -> IF c.obs.big THEN o.ref ELSE Move(c.obs.alg, sum, o.b)
                  [] o.t = "R" -> Start(c.obs.alg)
                  [] OTHER     -> sum IN
       /\ sum' = s
       /\ twhy' = twhy \cup If(o.ref # s, "the-harness's-own-reference-is-wrong")
                     \cup If(o.t = "W" /\ (o.ret # o.n \/ o.err), "Write-result")
                     \cup If(o.t = "W" /\ o.mod, "Write-changes-its-argument")
                     \cup If(o.t \in {"S", "A"} /\ o.w # s, "sum-of-" \o c.obs.alg)
                     \cup If(o.t = "A" /\ ~o.pre, "Sum-does-not-append")
    /\ ti' = ti + 1 /\ UNCHANGED tk
Fin ==
    LET c == Cases[tk] IN
    /\ ti > 0 /\ (IF c.fault # "" THEN TRUE ELSE ti = Len(c.obs.ops) + 1)
    /\ Say(c.id, IF c.fault # "" THEN {c.fault} ELSE twhy \cup If(c.obs.size # 4, "Size"))
    /\ ti' = 0 /\ UNCHANGED <<tk, sum, twhy>>
Next == Step \/ Fin
Spec == Init /\ [][Next]_<<tk, ti, sum, twhy>>
=============================================================================
