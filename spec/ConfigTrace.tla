------------------------------ MODULE ConfigTrace ------------------------------
(* Recorded histories of New and Reset calls, judged with module Config.     *)
EXTENDS Config, Judge, Json, IOUtils
VARIABLES at, pos, eff, objs
Cases == ndJsonDeserialize(IOEnv.CASES)
If(b, r) == IF b THEN {r} ELSE {}
Next1(c) == LET e == c.obs.epochs[pos] IN
            IF pos = 1 THEN New(c.side, e.opts) ELSE Reset(c.side, eff, e.opts)
Ids(n) == SubSeq(<<1, 2>>, 1, n)
EpochWhy(side, x, e) ==
    If(e.f # x.f, "Format") \cup If(e.m # x.m, "MemoryLevel") \cup If(e.w # x.w, "WindowBits")
    \cup If(e.d # x.d, "Dict") \cup If(e.t # Ids(x.t), "Tracers") \cup If(~e.under, "Underlying")
    \cup If(~e.again, "accessors-change-with-the-caller's-data")
    \cup If(\E j \in 1..2 : (j <= x.t) # (e.ev[j] > 0), "tracers-called") \cup If(x.t = 2 /\ e.ev[1] # e.ev[2], "events-per-tracer")
    \cup (IF side = "reader"
          THEN IF ~Specified(x, e.probe) THEN {}
               ELSE If(e.ok # Accepts(x, e.probe) \/ e.err = e.ok, "decoding-of-" \o e.probe)
          ELSE If(e.s # x.s, "Strategy") \cup If(e.l # x.l, "CompressLevel") \cup If(e.me # x.e, "Method")
               \cup If(e.err, "write-failed")
               \cup (IF x.f = 3 /\ x.d # 0 THEN {} ELSE OutputWhy(x, e)))
RefuseWhy(o) == If(o.panic # (o.v \notin Valid[o.o]), "refusal-of-" \o o.o \o "-" \o ToString(o.v))

Init == at \in 1..Len(Cases) /\ pos = 1 /\ eff = Unset /\ objs = {}
Step == LET c == Cases[at] IN
        /\ pos > 0 /\ c.fault = "" /\ pos <= Len(c.obs.epochs)
        /\ eff' = Next1(c)
        /\ objs' = objs \cup EpochWhy(c.side, eff', c.obs.epochs[pos])
        /\ pos' = pos + 1 /\ UNCHANGED at
Fin == LET c == Cases[at] IN
       /\ pos > 0 /\ (IF c.fault # "" THEN TRUE ELSE pos > Len(c.obs.epochs))
       /\ Say(c.id, IF c.fault # "" THEN {c.fault} ELSE objs \cup UNION {RefuseWhy(c.obs.refuse[j]) : j \in 1..Len(c.obs.refuse)})
       /\ pos' = 0 /\ UNCHANGED <<at, eff, objs>>
Next == Step \/ Fin
Spec == Init /\ [][Next]_<<at, pos, eff, objs>>
EffInv == pos > 1 => ConfigInv(Cases[at].side, eff)
=============================================================================
