------------------------------- MODULE CliTrace --------------------------------
(* Recorded runs of the gzip command, judged with modules Cli and Config.    *)
EXTENDS Cli, Judge, Json, IOUtils
VARIABLES at
Cases == ndJsonDeserialize(IOEnv.CASES)
If(b, r) == IF b THEN {r} ELSE {}

\* ------------------------------------------------------------ compression
HdrWhy(opts, e) ==
    If(e.name # LastOf(opts, "n", << >>), "file-name") \cup If(e.comment # LastOf(opts, "m", << >>), "comment")
    \cup LET t == TimeOf(LastOf(opts, "t", << >>)) IN
         If(e.mtime # (IF t = {} THEN <<0, 0>> ELSE Times[CHOOSE k \in t : TRUE].w), "time")
OKWhy(opts, o) ==
    LET x == CompressCfg(opts)  e == o.dec IN
    IF x.f = 3 /\ x.d # 0 THEN {}       \* gzip has no notion of a dictionary
    ELSE OutputWhy(x, e)
         \cup (IF e.ok /\ x.f = 3 /\ e.out = "gzip" THEN HdrWhy(opts, e) ELSE {})
         \cup If(o.backexit # 0, "decompression-fails") \cup If(~o.back, "decompression-gives-other-data")
CompressWhy(c, o) ==
    LET opts == o.opts IN
    IF o.exit = -2 THEN {"does-not-end"}
    ELSE IF Refused(opts) THEN If(o.exit = 0, "success-in-spite-of-a-bad-option")
    ELSE IF RefusedHdr(opts) THEN If(o.exit = 0 /\ CompressCfg(opts).f = 3, "success-in-spite-of-a-bad-header-field")
    ELSE IF c.stdin = "dir" THEN If(o.exit = 0, "success-in-spite-of-unreadable-input")
    ELSE IF c.stdout \in {"full", "broken"} THEN If(o.exit = 0, "success-in-spite-of-unwritable-output")
    ELSE IF o.exit # 0 THEN If(~Unclear(opts), "failure-without-reason")
    ELSE IF Conflict(opts) THEN {} ELSE OKWhy(opts, o)

\* ---------------------------------------------------------- decompression
Verdicts(o) == {o.oerr} \cup {o.oalts[k].err : k \in 1..Len(o.oalts)}
DecompressWhy(c, o) ==
    LET opts == o.opts IN
    IF o.exit = -2 THEN {"does-not-end"}
    ELSE IF Refused(opts) THEN If(o.exit = 0, "success-in-spite-of-a-bad-option")
    ELSE IF c.stdin = "dir" THEN If(o.exit = 0, "success-in-spite-of-unreadable-input")
    ELSE IF c.stdout \in {"full", "broken"}
         THEN If(o.exit = 0 /\ (o.on > 0 \/ "EOF" \notin Verdicts(o)), "success-in-spite-of-unwritable-output")
    ELSE If(o.common # o.n, "wrong-data")
         \cup IF o.exit = 0
              THEN If("EOF" \notin Verdicts(o), "success-in-spite-of-" \o o.oerr) \cup If(o.oerr = "EOF" /\ o.n # o.on, "data-lost")
              ELSE If(Verdicts(o) = {"EOF"} /\ ~Unclear(opts), "failure-on-valid-input")

\* the log shows streams from beginning to end
Order == [a \in {"stream-begin", "stream-header", "block-begin", "block-trees", "block-end", "stream-end", "stream-close"} |->
            CASE a = "stream-begin" -> {"stream-header", "stream-close"} [] a = "stream-header" -> {"block-begin", "stream-close"}
              [] a = "block-begin" -> {"block-trees", "block-end", "stream-close"} [] a = "block-trees" -> {"block-end", "stream-close"}
              [] a = "block-end" -> {"block-begin", "stream-end", "stream-close"} [] a = "stream-end" -> {"stream-close"}
              [] a = "stream-close" -> {"stream-begin"}]
LogWhy(c, o) ==
    IF ~o.logged \/ o.exit # 0 THEN {}
    ELSE If(IF o.log = << >> THEN o.len > 0 \/ ~c.dec ELSE o.log[1] # "stream-begin" \/ o.log[Len(o.log)] # "stream-close", "log-begins-or-ends-elsewhere")
         \cup If(\E k \in 1..Len(o.log) : o.log[k] \notin DOMAIN Order, "log-of-unknown-events")
         \cup If(\E k \in 2..Len(o.log) : o.log[k - 1] \in DOMAIN Order /\ o.log[k] \notin Order[o.log[k - 1]], "log-out-of-order")
         \cup If(~c.dec /\ ~Conflict(o.opts) /\ LET x == CompressCfg(o.opts) IN o.level # x.l \/ o.wbits # x.w, "log-shows-other-options")
Why(c) == IF c.fault # "" THEN {c.fault}
          ELSE (IF c.dec THEN DecompressWhy(c, c.obs) ELSE CompressWhy(c, c.obs)) \cup LogWhy(c, c.obs)
Init == at \in 1..Len(Cases)
Next == at > 0 /\ Say(Cases[at].id, Why(Cases[at])) /\ at' = -at
Spec == Init /\ [][Next]_at
=============================================================================
