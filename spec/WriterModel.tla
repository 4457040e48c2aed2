------------------------------ MODULE WriterModel ------------------------------
(***************************************************************************)
(* A design of a Writer with an input buffer, pending bits and an          *)
(* unreliable sink.  TLC checks that it keeps the contract of WriterApi:   *)
(* what reached the sink is decodable up to `vis`, streams are complete    *)
(* and self-contained, failures stick and nothing follows them.            *)
(*                                                                         *)
(* The sink's contents are a sequence of pieces of output:                 *)
(*   [k : "hdr" | "data" | "empty" | "stored0" | "final" | "ftr", n, lo]   *)
(* ("stored0": empty stored block, byte aligned; "empty": empty static     *)
(* block; lo: the lowest position that back-references of a piece of data  *)
(* reach).  `bits` holds a piece of which the last bits are not sent yet.  *)
(***************************************************************************)
EXTENDS WriterApi, FiniteSets, TLC
CONSTANTS MaxAcc, MaxOps

VARIABLES s, buf, bits, hist, sunk, old, nops, last
vars == <<s, buf, bits, hist, sunk, old, nops, last>>
NoPiece == [k |-> "", n |-> 0, lo |-> 0]
P(k, n, lo) == [k |-> k, n |-> n, lo |-> lo]

Init == /\ s = New("h0") /\ buf = 0 /\ bits = NoPiece /\ hist = 0 /\ sunk = << >> /\ old = << >> /\ nops = 0
        /\ last = [op |-> "", res |-> "nil"]

\* the pieces an operation emits are sent one by one; the sink may fail at any
Pend(b) == IF b.k = "" THEN << >> ELSE << b >>

\* compress: turn `n` buffered bytes into a block whose last bits stay pending
\* pieces = what is ready to be sent
Emit(pieces, s2, op) ==
    \/ /\ sunk' = sunk \o pieces /\ s' = s2 /\ last' = [op |-> op, res |-> "nil"]
    \/ /\ pieces # << >>
       /\ \E m \in 0..(Len(pieces) - 1) : sunk' = sunk \o SubSeq(pieces, 1, m)
       /\ s' = IF op = "Close" THEN FailClose(s, "SINK") ELSE Fail(s, "SINK")
       /\ last' = [op |-> op, res |-> "SINK"]

NeedHdr(n) == n > 0 /\ s.ph \in {"none", "between"}
HdrPc(n) == IF NeedHdr(n) THEN << P("hdr", 0, 0) >> ELSE << >>
Hist0(n) == IF NeedHdr(n) THEN s.acc ELSE hist     \* a new stream has no history

Write(n) ==
    /\ Usable(s) /\ s.acc + n <= MaxAcc
    /\ \E c \in 0..(buf + n) :      \* how much is compressed now
        LET b2 == buf + n - c
            blk == P("data", c, Hist0(n))
        IN /\ buf' = b2
           /\ hist' = Hist0(n)
           /\ bits' = IF c > 0 THEN blk ELSE bits
           /\ Emit(HdrPc(n) \o (IF c > 0 THEN Pend(bits) ELSE << >>), WriteOK(s, n), "W")

\* everything buffered becomes a block
Rest == IF buf > 0 THEN << P("data", buf, hist) >> ELSE << >>
Flush(f) ==
    /\ Usable(s)
    /\ LET h0 == IF f \in {"C", "Close"} /\ s.ph = "none" THEN << P("hdr", 0, 0) >> ELSE << >>
           is == s.ph = "open" \/ h0 # << >>
           all == h0 \o Pend(bits) \o Rest
       IN /\ buf' = 0
          /\ CASE ~is -> bits' = bits /\ hist' = hist /\ Emit(<< >>, IF f = "Close" THEN CloseOK(s) ELSE FlushOK(s, f), f)
               [] f = "B" -> /\ bits' = (IF all = << >> THEN NoPiece ELSE all[Len(all)]) /\ hist' = hist
                             /\ Emit(IF all = << >> THEN << >> ELSE SubSeq(all, 1, Len(all) - 1), FlushOK(s, f), f)
               [] f = "P" -> \* the pending block is pushed out by the empty one, which stays pending itself
                             /\ bits' = P("empty", 0, 0) /\ hist' = hist /\ Emit(all, FlushOK(s, f), f)
               [] f = "S" -> bits' = NoPiece /\ hist' = hist /\ Emit(all \o << P("stored0", 0, 0) >>, FlushOK(s, f), f)
               [] f = "F" -> bits' = NoPiece /\ hist' = s.acc /\ Emit(all \o << P("stored0", 0, 0) >>, FlushOK(s, f), f)
               [] OTHER   -> /\ bits' = NoPiece /\ hist' = s.acc
                             /\ Emit(all \o << P("final", 0, 0), P("ftr", 0, 0) >>, IF f = "Close" THEN CloseOK(s) ELSE FlushOK(s, f), f)

Refuse(op) == /\ ~Usable(s)
              /\ last' = [op |-> op, res |-> Refused(s)]
              /\ s' = IF op = "Close" THEN [s EXCEPT !.ph = "closed"] ELSE s
              /\ UNCHANGED <<buf, bits, hist, sunk>>

Reset == /\ CanReset(s)
         /\ s' = New("h0") /\ buf' = 0 /\ bits' = NoPiece /\ hist' = 0 /\ sunk' = << >> /\ old' = sunk
         /\ last' = [op |-> "R", res |-> "nil"]

Next == /\ nops < MaxOps /\ nops' = nops + 1
        /\ \/ (\E n \in 0..2 : Write(n)) /\ old' = old
           \/ (\E f \in FlushTypes \cup {"Close"} : Flush(f)) /\ old' = old
           \/ (\E op \in {"W", "B", "Close"} : Refuse(op)) /\ old' = old
           \/ Reset
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q).n + Sum(Tail(q))
RECURSIVE Count(_, _)
Count(q, k) == IF q = << >> THEN 0 ELSE (IF Head(q).k = k THEN 1 ELSE 0) + Count(Tail(q), k)
\* position in the data before piece i
Pos(i) == Sum(SubSeq(sunk, 1, i - 1))
\* start of the data of the stream that piece i belongs to
LastHdr(i) == CHOOSE j \in 1..i : sunk[j].k = "hdr" /\ \A m \in (j + 1)..i : sunk[m].k # "hdr"

Contract  == ApiInv(s)
Visible   == Sum(sunk) >= s.vis
Streams   == s.err = "" => Count(sunk, "ftr") = s.ended
WellFormed ==
    /\ sunk # << >> => sunk[1].k = "hdr"
    /\ \A i \in 1..Len(sunk) - 1 : (sunk[i].k = "ftr") = (sunk[i + 1].k = "hdr") /\ (sunk[i].k = "final") = (sunk[i + 1].k = "ftr")
Complete  == s.ph \in {"between"} => Sum(sunk) = s.acc /\ sunk[Len(sunk)].k = "ftr"
Aligned   == last.op \in {"S", "F"} /\ last.res = "nil" /\ s.ph = "open" => sunk[Len(sunk)].k = "stored0" /\ bits.k = ""
SelfContained == \A i \in 1..Len(sunk) : sunk[i].k = "data" => sunk[i].lo >= Pos(LastHdr(i))
Barrier   == s.ph = "open" /\ last.op = "F" /\ last.res = "nil" => hist = s.acc
NoneSilent == s.ph = "none" => sunk = << >>

\* action properties: failures stick, nothing follows them, closed means closed
Sticky == [][ (s.ph = "failed" => sunk' = sunk \/ last'.op = "R")
              /\ (s.ph = "failed" /\ last'.op # "R" => last'.res = s.err)
              /\ (s.ph = "closed" /\ last'.op # "R" => last'.res = "CLOSED" /\ sunk' = sunk)
              /\ (last'.op # "R" => SubSeq(sunk', 1, Len(sunk)) = sunk) ]_vars
SilentOK == [][ \A op \in FlushTypes \cup {"Close"} : last'.op = op /\ Silent(s, op, 0) => sunk' = sunk ]_vars
=============================================================================
