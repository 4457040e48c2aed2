------------------------------ MODULE Instances ------------------------------
(***************************************************************************)
(* Several Writers (or Readers) that share one pool of scratch objects.    *)
(*                                                                         *)
(* An instance turns each block of its input into output by taking a       *)
(* scratch object, filling it step by step, taking a second object for the *)
(* description of the block while it holds the first one, emitting, and    *)
(* giving both back.  The steps of different instances interleave in any   *)
(* way; that also covers an instance whose sink, source or tracer uses     *)
(* another instance.  The pool may drop objects at any time.               *)
(*                                                                         *)
(* Non-interference: what an instance emits is a function of its own       *)
(* input, `Alone`, whatever the others do.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Inst, Objs, Blocks, BlockLen
CONSTANTS Clean      \* TRUE: objects are emptied before they go back
VARIABLES pool,      \* the free objects
          body,      \* contents of each object
          st         \* state of each instance
vars == <<pool, body, st>>

\* what instance i reads: block b, position k
In(i, b, k) == <<i, b, k>>
Data(i, b) == [k \in 1..BlockLen |-> In(i, b, k)]
Desc(x) == <<"desc", Len(x)>>
AloneBlock(i, b) == << Desc(Data(i, b)) >> \o Data(i, b)
RECURSIVE Alone(_, _)
Alone(i, n) == IF n = 0 THEN << >> ELSE Alone(i, n - 1) \o AloneBlock(i, n)

None == 0
Idle(i) == [pc |-> "idle", a |-> None, d |-> None, blk |-> 0, k |-> 0, out |-> << >>]
Init == /\ pool = {} /\ body = [o \in Objs |-> << >>] /\ st = [i \in Inst |-> Idle(i)]

Held == {st[i].a : i \in Inst} \cup {st[i].d : i \in Inst}
\* Get: one of the pool's objects, or a new (empty) one
Take(o) == \/ o \in pool /\ pool' = pool \ {o} /\ body' = body
           \/ o \notin pool /\ o \notin Held /\ pool' = pool /\ body' = [body EXCEPT ![o] = << >>]
Give(S, bd) == /\ pool' = pool \cup S
               /\ body' = IF Clean THEN [o \in Objs |-> IF o \in S THEN << >> ELSE bd[o]] ELSE bd

Start(i) == /\ st[i].pc = "idle" /\ st[i].blk < Blocks
            /\ \E o \in Objs : Take(o) /\ st' = [st EXCEPT ![i] = [@ EXCEPT !.pc = "fill", !.a = o, !.blk = @ + 1, !.k = 0]]
Fill(i) == /\ st[i].pc = "fill" /\ st[i].k < BlockLen
           /\ body' = [body EXCEPT ![st[i].a] = Append(@, In(i, st[i].blk, st[i].k + 1))]
           /\ st' = [st EXCEPT ![i].k = @ + 1] /\ UNCHANGED pool
Describe(i) == /\ st[i].pc = "fill" /\ st[i].k = BlockLen
               /\ \E o \in Objs : Take(o) /\ st' = [st EXCEPT ![i] = [@ EXCEPT !.pc = "desc", !.d = o]]
FillDesc(i) == /\ st[i].pc = "desc"
               /\ body' = [body EXCEPT ![st[i].d] = Append(@, Desc(body[st[i].a]))]
               /\ st' = [st EXCEPT ![i].pc = "emit"] /\ UNCHANGED pool
Emit(i) == /\ st[i].pc = "emit"
           /\ st' = [st EXCEPT ![i] = [@ EXCEPT !.pc = "give", !.out = @ \o body[st[i].d] \o body[st[i].a]]]
           /\ UNCHANGED <<pool, body>>
GiveBoth(i) == /\ st[i].pc = "give"
               /\ Give({st[i].a, st[i].d}, body)
               /\ st' = [st EXCEPT ![i] = [@ EXCEPT !.pc = "idle", !.a = None, !.d = None]]
\* the sink fails: what was taken goes back all the same
Abort(i) == /\ st[i].pc \in {"fill", "desc", "emit"}
            /\ Give({st[i].a, st[i].d} \ {None}, body)
            /\ st' = [st EXCEPT ![i] = [@ EXCEPT !.pc = "failed", !.a = None, !.d = None]]
Drop == \E o \in pool : pool' = pool \ {o} /\ UNCHANGED <<body, st>>

Next == \/ \E i \in Inst : Start(i) \/ Fill(i) \/ Describe(i) \/ FillDesc(i) \/ Emit(i) \/ GiveBoth(i) \/ Abort(i)
        \/ Drop
Spec == Init /\ [][Next]_vars

\* no object is in use twice, or in use and free
Exclusive == /\ \A i \in Inst : /\ {st[i].a, st[i].d} \cap pool = {}
                                /\ st[i].a # None => st[i].a # st[i].d
             /\ \A i, j \in Inst : i # j => ({st[i].a, st[i].d} \cap {st[j].a, st[j].d}) \subseteq {None}
CleanAtRest == \A o \in pool : body[o] = << >>
\* what has been emitted is a prefix of what the instance emits alone
NonInterference == \A i \in Inst : LET x == st[i].out  y == Alone(i, Blocks)
                                   IN Len(x) <= Len(y) /\ x = SubSeq(y, 1, Len(x))
=============================================================================
