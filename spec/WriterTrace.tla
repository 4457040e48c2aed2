------------------------------ MODULE WriterTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded Writer histories with WriterApi: each recorded  *)
(* call is one step of the contract; the facts that the independent        *)
(* decoder found about the output after each call must be as it says.      *)
(***************************************************************************)
EXTENDS WriterApi, WriterCfg, FiniteSets, Judge, Json, IOUtils

VARIABLES tk, ti, ts, twhy

Cases == ndJsonDeserialize(IOEnv.CASES)

IsFailure(c) == c.err # "nil" /\ ~(c.k = "S" /\ c.err = "EINVAL")
BadCalls(o) == {j \in 1..Len(o.calls) : IsFailure(o.calls[j])}
RECURSIVE Bytes(_)
Bytes(cs) == IF cs = << >> THEN 0 ELSE Head(cs).n + Bytes(Tail(cs))
If(b, r) == IF b THEN {r} ELSE {}
Full0(o) == o.t = "F" /\ o.f = "F"

\* the call in terms of the contract
OpName(o) == CASE o.t = "W" -> "W" [] o.t = "F" -> o.f [] o.t = "C" -> "Close" [] OTHER -> o.t

AfterOK(st, o) ==
    CASE o.t = "W" -> WriteOK(st, o.len)
      [] o.t = "F" -> FlushOK(st, o.f)
      [] o.t = "C" -> CloseOK(st)

AfterBad(st, o, e) == IF o.t = "C" THEN FailClose(st, e) ELSE Fail(st, e)

\* state after the call, and what is wrong with it
OpStep(st, o, kind) ==
    IF o.t = "H" THEN
         [s |-> IF o.err = "nil" THEN SetHdr(st, o.h) ELSE st,
          w |-> If(o.hdrok /\ o.err # "nil", "SetHeader-refuses-a-representable-header")
                \cup If(~o.hdrok /\ o.err = "nil", "SetHeader-accepts-an-unrepresentable-header")
                \cup If(o.calls # << >>, "SetHeader-writes")]
    ELSE IF o.t = "A" THEN [s |-> st, w |-> If(o.calls # << >>, "accessor-writes")]
    ELSE LET ref == Refused(st)  bad == BadCalls(o)  name == OpName(o) IN
    IF ref # "" THEN
         [s |-> IF o.t = "C" THEN [st EXCEPT !.ph = "closed"] ELSE st,
          w |-> If(o.calls # << >>, "underlying-writer-used-after-" \o st.ph)
                \cup If(o.err # ref, "call-after-" \o st.ph \o "-returned-" \o o.err)
                \cup If(o.n # 0, "bytes-accepted-after-" \o st.ph)]
    ELSE IF bad # {} THEN
         LET j == CHOOSE x \in bad : \A y \in bad : x <= y
             e == o.calls[j].err
         IN [s |-> AfterBad(st, o, e),
             w |-> If(o.err # e, "failure-of-underlying-writer-reported-as-" \o o.err)
                   \cup If(j # Len(o.calls), "underlying-writer-used-after-its-failure")
                   \cup If(o.t = "W" /\ (o.n < 0 \/ o.n > o.len), "bad-count-from-Write")]
    ELSE LET t == IF o.err = "nil" THEN AfterOK(st, o) ELSE AfterBad(st, o, o.err)
             lastW == {j \in 1..Len(o.calls) : o.calls[j].k = "W"}
             passed(m) == \E j \in 1..Len(o.calls) : o.calls[j].k = m /\ \A x \in lastW : x < j
         IN [s |-> t,
             w |-> If(o.err # "nil", "call-failed-without-cause:" \o o.err)
                   \cup If(o.t = "W" /\ o.err = "nil" /\ o.n # o.len, "Write-did-not-accept-everything")
                   \cup If(~o.kept, "Write-modified-the-callers-slice")
                   \cup If(Silent(st, name, o.len) /\ Bytes(o.calls) > 0, "output-where-none-is-due")
                   \cup (IF o.t # "F" \/ o.err # "nil" THEN {} ELSE
                         If(kind \in {"flush", "both"} /\ ~passed("F"), "Flush-not-passed-on")
                         \cup If(kind \in {"sync", "both"} /\ ~passed("S"), "Sync-not-passed-on"))
                   \cup (IF o.t \notin {"F", "C"} \/ o.err # "nil" THEN {} ELSE
                         If(~o.decok, "output-denotes-other-data")
                         \cup If(o.dec < t.vis, "data-not-recoverable-after-flush-" \o name)
                         \cup If(o.dec > t.acc, "more-data-than-written")
                         \cup If(name \in {"S", "F"} /\ st.ph = "open" /\ ~o.al, "not-aligned-after-flush-" \o name)
                         \cup If(Full0(o) /\ st.ph = "open" /\ o.reach < t.bar, "reference-across-FullFlush"))]
    
----------------------------------------------------------------------------
\* at the end of the epoch
EndWhy(c, st) ==
    LET clean == st.err = ""  done == clean /\ st.ph \in {"closed", "between", "none"}
        nm == Len(c.mem)
        all == \A j \in 1..nm : c.mem[j].done
        End(j) == IF j < Len(st.starts) THEN st.starts[j + 1] ELSE st.acc
    IN If(c.late > 0, "old-underlying-writer-used-after-Reset")
       \cup If(~c.decok, "output-denotes-other-data")
       \cup If(c.dec > c.offered, "more-data-than-written")
       \cup If(\E j \in 1..Len(c.ops) : \E x \in 1..Len(c.ops[j].calls) : c.ops[j].calls[x].k = "C", "underlying-writer-closed")
       \cup If(clean /\ c.twin \notin {"", "same"}, "output-differs-from-that-of-a-new-Writer")
       \cup If(~clean /\ c.twin \notin {"", "prefix", "same"}, "output-before-failure-is-no-prefix")
       \cup (IF ~done THEN {} ELSE
             If(c.err # "EOF", "output-not-complete-streams:" \o c.err)
             \cup If(c.err = "EOF" /\ c.dec # st.acc, "data-lost")
             \cup If(c.alts # 0, "output-relies-on-lenient-decoder")
             \cup If(nm # Len(st.starts), "number-of-streams")
             \cup If(st.starts = << >> /\ c.size # 0, "output-where-none-is-due")
             \cup If(nm = Len(st.starts) /\ ~(\A j \in 1..nm : c.mem[j].start = st.starts[j] /\ c.mem[j].n = End(j) - st.starts[j]),
                     "data-in-the-wrong-stream")
             \cup If(\E j \in 1..Len(c.rt) : c.rt[j].err # "EOF" \/ ~c.rt[j].same, "real-Reader-does-not-read-it-back"))
       \cup (UNION {StreamWhy(c.cfg, c.mem[j]) : j \in {x \in 1..nm : c.mem[x].done}})
       \cup (IF done /\ nm = Len(st.hdrs)
             THEN UNION {HeaderWhy(c.cfg, c.mem[j], st.hdrs[j]) : j \in 1..nm} ELSE {})
       \cup If(\E j \in 1..nm : c.mem[j].done /\ c.mem[j].size > SizeBound(c.cfg, c.mem[j], st.nfl), "output-too-big")
       \cup If(c.expect = "compress" /\ done /\ 2 * c.size > st.acc, "repetitive-data-not-compressed")

Init == /\ tk \in 1..Len(Cases) /\ ti = 1 /\ twhy = {}
        /\ ts = New(Cases[tk].header)
Do == /\ Cases[tk].fault = ""
      /\ ti \in 1..Len(Cases[tk].ops)
      /\ LET r == OpStep(ts, Cases[tk].ops[ti], Cases[tk].kind) IN ts' = r.s /\ twhy' = twhy \cup r.w
      /\ ti' = ti + 1 /\ UNCHANGED tk
Fin == /\ ti > 0 /\ (IF Cases[tk].fault # "" THEN TRUE ELSE ti = Len(Cases[tk].ops) + 1)
       /\ Say(Cases[tk].id, IF Cases[tk].fault # "" THEN {Cases[tk].fault} ELSE twhy \cup EndWhy(Cases[tk], ts))
       /\ ti' = 0 /\ UNCHANGED <<tk, ts, twhy>>
Next == Do \/ Fin
Spec == Init /\ [][Next]_<<tk, ti, ts, twhy>>
ContractInv == twhy = {} => ApiInv(ts)
View == <<tk, ti>>
=============================================================================
