------------------------------- MODULE ReaderApi -------------------------------
(***************************************************************************)
(* The Reader's contract as an abstract object: a position in the data     *)
(* that its source denotes, and how the stream of data ends.               *)
(*                                                                         *)
(* A source S is [n, err, alts]: n bytes and then err (or one of the       *)
(* alternatives, see module Outcome).  State of a Reader:                  *)
(*   src : which source,  pos : bytes handed out so far                    *)
(*   cl  : closed,        end : the error that has been reported, or ""    *)
(* All calls take effect atomically.  ReadMay(st, S, r) is the set of      *)
(* states in which a Read with result r = [m, n, e, at] may leave the      *)
(* Reader (at: the positions at which the returned bytes occur in the      *)
(* data); it is empty if the Reader may not return r.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

NewReader(k) == [src |-> k, pos |-> 0, cl |-> FALSE, end |-> ""]

DataErrs == {"EOF", "UEOF", "CORRUPT", "SRC"}
In(x, q) == \E j \in 1..Len(q) : q[j] = x

Data(st, S, r) ==
    IF r.n = 0 THEN {st}
    ELSE IF st.end = "" /\ r.n <= r.m /\ st.pos + r.n <= S.n /\ In(st.pos, r.at)
         THEN {[st EXCEPT !.pos = @ + r.n]}
    ELSE IF st.end = "" /\ r.n <= r.m /\ In(st.pos, r.at)     \* data of an alternative outcome
            /\ \E j \in 1..Len(S.alts) : st.pos + r.n <= S.alts[j].hi
         THEN {[st EXCEPT !.pos = @ + r.n]}
    ELSE {}

Ended(st, S, e) ==
    IF e \in DataErrs
    THEN IF st.end \in {"", e} /\ (\/ e = S.err /\ st.pos = S.n
                                   \/ \E j \in 1..Len(S.alts) : S.alts[j].err = e /\ st.pos >= S.alts[j].lo /\ st.pos <= S.alts[j].hi)
         THEN {[st EXCEPT !.end = e]} ELSE {}
    ELSE IF st.cl THEN {[st EXCEPT !.end = "STOPPED"]} ELSE {}     \* any error of its own, but only once closed

ReadMay(st, S, r) ==
    IF r.n < 0 \/ r.n > r.m THEN {}
    ELSE IF r.e = "nil" /\ r.n = 0 /\ r.m > 0 THEN {}
    ELSE IF r.e = "nil" THEN Data(st, S, r)
    ELSE UNION {Ended(t, S, r.e) : t \in Data(st, S, r)}

CloseMay(st, r) == IF r.e = "nil" THEN {[st EXCEPT !.cl = TRUE]} ELSE {}
ResetMay(st, k) == {NewReader(k)}

\* may a goroutine of the Reader still be there when no call is in progress?
MayLinger(st) == ~st.cl /\ st.end = ""
=============================================================================
