------------------------------- MODULE EnumTrace -------------------------------
(* What the code says about every value and about many texts, judged with    *)
(* the tables of module Enums.                                               *)
EXTENDS Enums, Judge, Json, IOUtils
VARIABLES at
Cases == ndJsonDeserialize(IOEnv.CASES)
R(b, what, v) == IF b THEN {what \o "(" \o ToString(v) \o ")"} ELSE {}

ValWhy(t, o) ==
    LET in == o.v \in Values(t)  v == o.v IN
    R(o.valid # -1 /\ (o.valid = 1) # in, "IsValid", v)
    \cup IF ~in THEN {}
         ELSE R(o.sp \/ o.str # Text(t, v), "String", v)
              \cup R(o.gp \/ o.go # GoText(t, v), "GoString", v)
              \cup R(~(\/ o.jk = "s" /\ IsNamed(t) /\ o.js \in {Text(t, v), GoText(t, v)}
                       \/ o.jk = "n" /\ ~IsNamed(t) /\ o.jn = v), "MarshalJSON", v)
ParseWhy(t, o) ==
    LET d == Denotes(t, o.in) IN
    R(o.panic, "Parse-panics", o.in)
    \cup (IF o.panic \/ ~o.ascii THEN {}
          ELSE R(o.ok /\ d # {o.v}, "Parse-accepts-or-wrong-value", o.in)
               \cup R(~o.ok /\ d # {} /\ ~Optional(t, o.in), "Parse-rejects", o.in))
SumWhy(o) ==
    R(Words(o.str) # {o.w}, "String", o.w) \cup R(~o.jok \/ Words(o.js) # {o.w}, "MarshalJSON", o.w) \cup R(o.back # o.w, "UnmarshalJSON", o.w)
Quoted(q) == Len(q) >= 2 /\ q[1] = 34 /\ q[Len(q)] = 34 /\ \A j \in 2..(Len(q) - 1) : q[j] # 34
Plain(q) == \A j \in 1..Len(q) : q[j] \in 32..126 /\ q[j] # 92
SumParseWhy(o) ==
    LET q == o.in  d == IF Quoted(q) THEN Words(SubSeq(q, 2, Len(q) - 1)) ELSE {} IN
    R(o.panic, "UnmarshalJSON-panics", q)
    \cup (IF o.panic \/ ~Plain(q) THEN {} ELSE R(o.ok # (d # {}) \/ (o.ok /\ d # {o.w}), "UnmarshalJSON-of-text", q))
All(S) == UNION S
Why(c) ==
    IF c.fault # "" THEN {c.fault}
    ELSE IF c.type = "Checksum32"
         THEN All({SumWhy(c.obs.sums[j]) : j \in 1..Len(c.obs.sums)}) \cup All({SumParseWhy(c.obs.parses[j]) : j \in 1..Len(c.obs.parses)})
         ELSE All({ValWhy(c.type, c.obs.vals[j]) : j \in 1..Len(c.obs.vals)}) \cup All({ParseWhy(c.type, c.obs.parses[j]) : j \in 1..Len(c.obs.parses)})
Init == at \in 1..Len(Cases)
Next == at > 0 /\ Say(Cases[at].id, Why(Cases[at])) /\ at' = -at
Spec == Init /\ [][Next]_at
=============================================================================
