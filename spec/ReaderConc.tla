------------------------------- MODULE ReaderConc -------------------------------
(***************************************************************************)
(* The design of the concurrent Reader at the level of its locks: mu1 over *)
(* the decoder's state, mu2 over the output buffer and the final error,    *)
(* condition variables cv1 ("there is data") and cv2 ("there is room"),    *)
(* both with mu2, a wait group for the decoder's goroutine, and flags for  *)
(* starting and stopping it.  Every step here is one critical section's    *)
(* worth or less.  TLC checks that the design keeps the contract ReaderApi *)
(* (each call's effect is compared with it at its linearization point),    *)
(* that nothing deadlocks, that every call returns, that no goroutine is   *)
(* left behind and that nothing touches a source that was given up.        *)
(*                                                                         *)
(* Data bytes are their positions 0, 1, ..; source k has N[k] of them and  *)
(* then Errs[k], where NEVER stands for input that goes on for ever        *)
(* without containing any more data.                                       *)
(***************************************************************************)
EXTENDS ReaderApi, FiniteSets, TLC
CONSTANTS Clients, MaxOps, N1, N2, OutCap, DecCap, Sizes, Allowed, MaxResets, E1_, E2_
N == <<N1, N2>>
ErrOf == <<E1_, E2_>>
Dec == "dec"
Nobody == "-"

VARIABLES mu1, mu2, w1, w2,       \* lock owners; waiters of cv1 and cv2
          started, stopped, errset, forced, wg, tails,
          outq, outerr,           \* output buffer and error (mu2)
          decq, left, pend,       \* decoder: its buffer, where it is in the source, its error
          pc, op, res, nops, \* per client
          dpc,
          src, resets,
          ast, good, touched      \* ghosts: ReaderApi's state, agreement with it, source use
sync == <<mu1, mu2, w1, w2>>
flags == <<started, stopped, errset, forced, wg, tails>>
decs == <<decq, left, pend>>
cl == <<op, nops>>
vars == <<mu1, mu2, w1, w2, started, stopped, errset, forced, wg, tails, outq, outerr, decq, left, pend, pc, op, res, nops, dpc, src, resets, ast, good, touched>>

Source(k) == [n |-> N[k + 1], err |-> ErrOf[k + 1], alts |-> << >>]

Init ==
    /\ mu1 = Nobody /\ mu2 = Nobody /\ w1 = {} /\ w2 = {}
    /\ started = FALSE /\ stopped = FALSE /\ errset = FALSE /\ forced = FALSE /\ wg = 0 /\ tails = 0
    /\ outq = << >> /\ outerr = "" /\ decq = << >> /\ left = 0 /\ pend = ""
    /\ pc = [c \in Clients |-> "idle"] /\ op = [c \in Clients |-> ""]
    /\ res = [c \in Clients |-> ""] /\ nops = 0 /\ dpc = "off"
    /\ src = 0 /\ resets = 0 /\ ast = NewReader(0) /\ good = TRUE /\ touched = {}

Goto(c, l) == pc' = [pc EXCEPT ![c] = l]
Take1(c) == mu1 = Nobody /\ mu1' = c
Take2(c) == mu2 = Nobody /\ mu2' = c
Free1 == mu1' = Nobody
Free2 == mu2' = Nobody

(* ------------------------------------------------------------ callers *)
Busy == {c \in Clients : pc[c] # "idle"}
Call(c) ==
    /\ pc[c] = "idle" /\ nops < MaxOps /\ nops' = nops + 1
    /\ \E o \in Allowed :
        /\ (o = "X" => Busy = {} /\ resets < MaxResets)     \* the contract: no other call is outstanding
        /\ \A d \in Busy : op[d] # "X"
        /\ op' = [op EXCEPT ![c] = o]
        /\ Goto(c, CASE o = "R" -> "r1" [] o = "C" -> "c1" [] o = "A" -> "a1" [] o = "X" -> "x1")
    /\ res' = [res EXCEPT ![c] = ""]
    /\ UNCHANGED <<sync, flags, outq, outerr, decs, dpc, src, resets, ast, good, touched>>

\* Read: make sure that the decoder is there
R1(c) == /\ pc[c] = "r1" /\ mu1 = Nobody
         /\ IF started THEN UNCHANGED <<started, wg, dpc>> ELSE started' = TRUE /\ wg' = wg + 1 /\ dpc' = "d0"
         /\ Goto(c, "r2")
         /\ UNCHANGED <<sync, stopped, errset, forced, tails, outq, outerr, decs, cl, res, src, resets, ast, good, touched>>
\* signals wake an arbitrary waiter
Signal(w, w2_) == IF w = {} THEN w2_ = {} ELSE \E x \in w : w2_ = w \ {x}
R2(c) == /\ pc[c] = "r2" /\ Take2(c)
         /\ IF outerr = "" /\ outq = << >> THEN Signal(w2, w2') /\ Goto(c, "r3") ELSE w2' = w2 /\ Goto(c, "r5")
         /\ UNCHANGED <<mu1, w1, flags, outq, outerr, decs, cl, res, dpc, src, resets, ast, good, touched>>
\* wait on cv1: give mu2 up and join the waiters, both at once
R3(c) == /\ pc[c] = "r3" /\ mu2 = c
         /\ IF outerr = "" /\ outq = << >> THEN Free2 /\ w1' = w1 \cup {c} /\ Goto(c, "r4") ELSE UNCHANGED <<mu2, w1>> /\ Goto(c, "r5")
         /\ UNCHANGED <<mu1, w2, flags, outq, outerr, decs, cl, res, dpc, src, resets, ast, good, touched>>
R4(c) == /\ pc[c] = "r4" /\ c \notin w1 /\ Take2(c) /\ Goto(c, "r3")
         /\ UNCHANGED <<mu1, w1, w2, flags, outq, outerr, decs, cl, res, dpc, src, resets, ast, good, touched>>
\* the linearization point of Read
R5(c) ==
    /\ pc[c] = "r5" /\ mu2 = c /\ Free2 /\ Goto(c, "idle")
    /\ \E m \in Sizes :
       LET k == IF m < Len(outq) THEN m ELSE Len(outq)
           r == IF outq = << >> THEN [m |-> m, n |-> 0, e |-> outerr, at |-> <<ast.pos>>]
                ELSE [m |-> m, n |-> k, e |-> "nil", at |-> <<outq[1]>>]
           may == ReadMay(ast, Source(ast.src), r)
       IN /\ outq' = SubSeq(outq, k + 1, Len(outq))
          /\ res' = [res EXCEPT ![c] = r.e]
          /\ good' = (good /\ may # {})
          /\ ast' = IF may # {} THEN CHOOSE s \in may : TRUE ELSE ast
          /\ IF outq = << >> THEN UNCHANGED <<w1, w2>>
             ELSE IF outq' = << >> THEN Signal(w2, w2') /\ w1' = w1
             ELSE Signal(w1, w1') /\ w2' = w2
    /\ UNCHANGED <<mu1, flags, outerr, decs, cl, dpc, src, resets, touched>>

\* an accessor
A1(c) == /\ pc[c] = "a1" /\ mu1 = Nobody /\ Goto(c, "idle")
         /\ UNCHANGED <<sync, flags, outq, outerr, decs, cl, res, dpc, src, resets, ast, good, touched>>

\* Close and the first half of Reset: stop the decoder
Closing(c) == op[c] = "C"
C1(c) == /\ pc[c] = "c1" /\ Take1(c)
         /\ Goto(c, IF started THEN "s1" ELSE "c2")
         /\ IF started THEN UNCHANGED <<started, stopped>> ELSE started' = TRUE /\ stopped' = TRUE
         /\ UNCHANGED <<mu2, w1, w2, errset, forced, wg, tails, outq, outerr, decs, cl, res, dpc, src, resets, ast, good, touched>>
C2(c) == /\ pc[c] = "c2" /\ mu2 = Nobody /\ outerr' = "CANCELED" /\ Goto(c, "s1")
         /\ UNCHANGED <<sync, flags, outq, decs, cl, res, dpc, src, resets, ast, good, touched>>
X1(c) == /\ pc[c] = "x1" /\ Take1(c) /\ Goto(c, "s1")
         /\ UNCHANGED <<mu2, w1, w2, flags, outq, outerr, decs, cl, res, dpc, src, resets, ast, good, touched>>
\* holding mu1: tell the readers and the decoder ...
S1(c) == /\ pc[c] = "s1" /\ mu1 = c
         /\ IF started /\ ~stopped
            THEN /\ mu2 = Nobody /\ outerr' = "CANCELED" /\ outq' = << >> /\ w1' = {} /\ w2' = {} /\ Goto(c, "s2")
            ELSE UNCHANGED <<outerr, outq, w1, w2>> /\ Goto(c, "s4")
         /\ ast' = IF Closing(c) THEN [ast EXCEPT !.cl = TRUE] ELSE ast
         /\ UNCHANGED <<mu1, mu2, flags, decs, cl, res, dpc, src, resets, good, touched>>
S2(c) == /\ pc[c] = "s2" /\ mu1 = c /\ errset' = TRUE /\ forced' = TRUE /\ Free1 /\ Goto(c, "s3")
         /\ UNCHANGED <<mu2, w1, w2, started, stopped, wg, tails, outq, outerr, decs, cl, res, dpc, src, resets, ast, good, touched>>
\* ... and wait until it is gone
S3(c) == /\ pc[c] = "s3" /\ wg = 0 /\ Take1(c) /\ Goto(c, "s4")
         /\ UNCHANGED <<mu2, w1, w2, flags, outq, outerr, decs, cl, res, dpc, src, resets, ast, good, touched>>
S4(c) == /\ pc[c] = "s4" /\ mu1 = c
         /\ IF op[c] = "X" THEN UNCHANGED mu1 /\ Goto(c, "x2") ELSE Free1 /\ Goto(c, "idle")
         /\ res' = [res EXCEPT ![c] = "nil"]
         /\ touched' = IF op[c] = "C" THEN {} ELSE touched
         /\ UNCHANGED <<mu2, w1, w2, flags, outq, outerr, decs, cl, dpc, src, resets, ast, good>>
X2(c) == /\ pc[c] = "x2" /\ mu1 = c /\ mu2 = Nobody /\ Free1 /\ Goto(c, "idle")
         /\ started' = FALSE /\ stopped' = FALSE /\ errset' = FALSE /\ forced' = FALSE
         /\ outq' = << >> /\ outerr' = "" /\ decq' = << >> /\ left' = 0 /\ pend' = ""
         /\ src' = (src + 1) % Len(N) /\ resets' = resets + 1
         /\ ast' = NewReader((ast.src + 1) % Len(N)) /\ touched' = {}
         /\ UNCHANGED <<mu2, w1, w2, wg, tails, cl, res, dpc, good>>

(* ------------------------------------------------------------ decoder *)
DUn == UNCHANGED <<pc, cl, res, src, resets, ast, good>>
D0 == /\ dpc = "d0" /\ Take1(Dec) /\ dpc' = "d1"
      /\ UNCHANGED <<mu2, w1, w2, flags, outq, outerr, decs, touched>> /\ DUn
\* mu1 is given up for reading from the source; a decoder that has been told
\* to stop takes the input to be at its end
D1 == /\ dpc = "d1" /\ mu1 = Dec
      /\ IF forced THEN pend' = "EOF" /\ dpc' = "e1" /\ UNCHANGED mu1
         ELSE pend' = pend /\ dpc' = "d1r" /\ Free1
      /\ UNCHANGED <<mu2, w1, w2, flags, outq, outerr, decq, left, touched>> /\ DUn
D1r == /\ dpc = "d1r" /\ touched' = touched \cup {src} /\ dpc' = "d1s"
       /\ UNCHANGED <<sync, flags, outq, outerr, decs>> /\ DUn
\* decode some of it
D1s == /\ dpc = "d1s" /\ Take1(Dec)
       /\ LET n == N[src + 1] IN
          IF left < n
          THEN \E k \in 1..DecCap : /\ left + k <= n
                                    /\ decq' = decq \o [i \in 1..k |-> left + i - 1]
                                    /\ left' = left + k /\ pend' = pend /\ dpc' = "d2"
          ELSE IF ErrOf[src + 1] = "NEVER" THEN dpc' = "d1" /\ UNCHANGED <<decq, left, pend>>
          ELSE pend' = ErrOf[src + 1] /\ dpc' = "e1" /\ UNCHANGED <<decq, left>>
       /\ UNCHANGED <<mu2, w1, w2, flags, outq, outerr, touched>> /\ DUn
\* decodeBufferMustFlush
D2 == /\ dpc = "d2" /\ mu1 = Dec
      /\ IF forced THEN decq' = << >> /\ dpc' = "d1" /\ UNCHANGED mu1
         ELSE IF decq = << >> THEN dpc' = "d1" /\ UNCHANGED <<decq, mu1>>
         ELSE Free1 /\ dpc' = "d3" /\ UNCHANGED decq
      /\ UNCHANGED <<mu2, w1, w2, flags, outq, outerr, left, pend, touched>> /\ DUn
D3 == /\ dpc = "d3" /\ Take2(Dec) /\ dpc' = "d4"
      /\ UNCHANGED <<mu1, w1, w2, flags, outq, outerr, decs, touched>> /\ DUn
D4 == /\ dpc = "d4" /\ mu2 = Dec /\ Free2
      /\ IF Len(outq) = OutCap THEN w2' = w2 \cup {Dec} /\ dpc' = "d5" ELSE w2' = w2 /\ dpc' = "d6"
      /\ UNCHANGED <<mu1, w1, flags, outq, outerr, decs, touched>> /\ DUn
D5 == /\ dpc = "d5" /\ Dec \notin w2 /\ Take2(Dec) /\ dpc' = "d4"
      /\ UNCHANGED <<mu1, w1, w2, flags, outq, outerr, decs, touched>> /\ DUn
D6 == /\ dpc = "d6" /\ Take1(Dec)
      /\ IF forced THEN decq' = << >> /\ dpc' = "d1" ELSE decq' = decq /\ dpc' = "d7"
      /\ UNCHANGED <<mu2, w1, w2, flags, outq, outerr, left, pend, touched>> /\ DUn
D7 == /\ dpc = "d7" /\ mu1 = Dec /\ mu2 = Nobody
      /\ LET room == OutCap - Len(outq)
             k == IF Len(decq) < room THEN Len(decq) ELSE room IN
         /\ outq' = outq \o SubSeq(decq, 1, k)
         /\ decq' = SubSeq(decq, k + 1, Len(decq))
         /\ IF k # 0 THEN Signal(w1, w1') ELSE w1' = w1
      /\ dpc' = "d2"
      /\ UNCHANGED <<mu1, mu2, w2, flags, outerr, left, pend, touched>> /\ DUn
E1 == /\ dpc = "e1" /\ mu1 = Dec
      /\ IF errset THEN UNCHANGED <<outerr, errset, w1>>
         ELSE mu2 = Nobody /\ outerr' = pend /\ errset' = TRUE /\ w1' = {}
      /\ dpc' = "e2"
      /\ UNCHANGED <<mu1, mu2, w2, started, stopped, forced, wg, tails, outq, decs, touched>> /\ DUn
\* the goroutine's last act, after giving mu1 up, is wg.Done
E2 == /\ dpc = "e2" /\ mu1 = Dec /\ stopped' = TRUE /\ Free1 /\ dpc' = "off" /\ tails' = tails + 1
      /\ UNCHANGED <<mu2, w1, w2, started, errset, forced, wg, outq, outerr, decs, touched>> /\ DUn
E3 == /\ tails > 0 /\ tails' = tails - 1 /\ wg' = wg - 1
      /\ UNCHANGED <<sync, started, stopped, errset, forced, outq, outerr, decs, touched, dpc>> /\ DUn

Client(c) == R1(c) \/ R2(c) \/ R3(c) \/ R4(c) \/ R5(c) \/ A1(c) \/ C1(c) \/ C2(c) \/ X1(c) \/ S1(c) \/ S2(c) \/ S3(c) \/ S4(c) \/ X2(c)
Decoder == D0 \/ D1 \/ D1r \/ D1s \/ D2 \/ D3 \/ D4 \/ D5 \/ D6 \/ D7 \/ E1 \/ E2 \/ E3
Next == (\E c \in Clients : Call(c) \/ Client(c)) \/ Decoder
Spec == Init /\ [][Next]_vars /\ WF_vars(Decoder) /\ (\A c \in Clients : WF_vars(Client(c)))
\* the mutexes are fair: whoever waits gets one that is free again and again
FairSpec == Spec /\ \A c \in Clients : SF_vars(R1(c)) /\ SF_vars(C1(c)) /\ SF_vars(X1(c))

(* ---------------------------------------------------------- properties *)
Agrees == good
Locks == /\ mu1 \in Clients \cup {Dec, Nobody} /\ mu2 \in Clients \cup {Dec, Nobody}
         /\ wg = tails + (IF dpc = "off" THEN 0 ELSE 1)
         /\ Len(outq) <= OutCap /\ w1 \subseteq Clients /\ w2 \subseteq {Dec}
\* a decoder that waits for nobody: only where nobody reads
Quiet == Busy = {}
NoOrphan == Quiet /\ (ast.cl \/ ast.end # "") => dpc \in {"off", "e2"}
ClosedGone == (Quiet /\ ast.cl) => dpc = "off"
\* after Close has returned the source is left alone
LeaveAlone == [][Quiet /\ ast.cl => touched' \subseteq touched]_vars
\* nothing gets stuck: if a call is in progress, something can move
NoDeadlock == Busy # {} => ENABLED (Decoder \/ \E c \in Clients : Client(c))
\* every call returns
Returns == \A c \in Clients : (pc[c] # "idle") ~> (pc[c] = "idle")
\* whatever the source does, calls other than Read return, and so does Read
\* if the Reader is closed
Stops == \A c \in Clients : /\ (pc[c] # "idle" /\ op[c] # "R") ~> (pc[c] = "idle")
                            /\ (pc[c] # "idle" /\ ast.cl) ~> (pc[c] = "idle")
=============================================================================
