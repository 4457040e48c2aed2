---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The gzip command: what a command line means and when it has to fail.    *)
(*                                                                         *)
(* A command line is a sequence of options [o, v]: a letter and its text   *)
(* as codes. F, S, C, M, W are the format, strategy, level, memory level   *)
(* and window options, 0..9 the level flags, d a preset dictionary by      *)
(* number, dx a dictionary file that does not exist, n, m, t the file      *)
(* name, comment and time for the header, P a pair of profile files, Px,   *)
(* Py profile files that cannot be created, Z an unknown option.           *)
(***************************************************************************)
EXTENDS Config, Enums

TypeOf == [F |-> "Format", S |-> "Strategy", C |-> "CompressLevel", M |-> "MemoryLevel", W |-> "WindowBits"]
Letter == [F |-> "f", S |-> "s", C |-> "l", M |-> "m", W |-> "w"]
Digit == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CHOOSE k \in 0..9 : ToString(k) = x]

\* times: text, whether a 32-bit time, its halves
Times == << [t |-> Codes("2001-02-03T04:05:06Z"), ok |-> TRUE, w |-> <<14971, 33650>>],
            [t |-> Codes("1970-01-01T00:00:01Z"), ok |-> TRUE, w |-> <<0, 1>>],
            [t |-> Codes("2020-01-01T00:00:00+01:00"), ok |-> TRUE, w |-> <<24075, 54000>>],
            [t |-> Codes("2106-02-07T06:28:14Z"), ok |-> TRUE, w |-> <<65535, 65534>>],
            [t |-> Codes("1969-12-31T23:59:59Z"), ok |-> FALSE, w |-> <<0, 0>>],
            [t |-> Codes("2106-02-07T06:28:16Z"), ok |-> FALSE, w |-> <<0, 0>>],
            [t |-> Codes("2038-01-19T03:14:08Z"), ok |-> TRUE, w |-> <<32768, 0>>],
            [t |-> Codes("2099-12-31T23:59:59-11:30"), ok |-> TRUE, w |-> <<62598, 63671>>] >>
TimeOf(q) == {k \in 1..Len(Times) : Times[k].t = q}

\* an option that cannot be right whatever else is said
BadOpt(x) == CASE x.o \in DOMAIN TypeOf -> Denotes(TypeOf[x.o], x.v) = {}
               [] x.o \in {"dx", "Z", "Px", "Py"} -> TRUE
               [] x.o = "t" -> TimeOf(x.v) = {}
               [] OTHER -> FALSE
\* header fields that no stream can hold
BadHdr(x) == \/ x.o \in {"n", "m"} /\ Len(x.v) >= 256
             \/ x.o = "t" /\ \E k \in TimeOf(x.v) : ~Times[k].ok
             \/ x.o = "n" /\ \E k \in 1..Len(x.v) : x.v[k] \in {47, 92}
Doubtful(x) == x.o \in DOMAIN TypeOf /\ Optional(TypeOf[x.o], x.v)
\* several level flags exclude each other
Level(x) == x.o = "C" \/ x.o \in DOMAIN Digit
Conflict(opts) == \E a, b \in 1..Len(opts) : Level(opts[a]) /\ Level(opts[b]) /\ opts[a].o # opts[b].o

LastOf(opts, o, d) == LET S == {k \in 1..Len(opts) : opts[k].o = o} IN
                      IF S = {} THEN d ELSE opts[CHOOSE k \in S : \A j \in S : j <= k].v

\* the library options that the command line stands for
LibOpt(x) == CASE x.o \in DOMAIN TypeOf -> << << Letter[x.o], CHOOSE v \in Denotes(TypeOf[x.o], x.v) : TRUE >> >>
               [] x.o \in DOMAIN Digit -> << <<"l", Digit[x.o]>> >>
               [] x.o = "d" -> << <<"d", Num(x.v)>> >>
               [] OTHER -> << >>
LibOpts(opts) == FoldLeft(LAMBDA acc, x : acc \o LibOpt(x), << >>, opts)
CompressCfg(opts) == LET a == Apply(Unset, LibOpts(opts)) IN Defaults("writer", IF a.f = 0 THEN [a EXCEPT !.f = 3] ELSE a)
DecompressCfg(opts) == Defaults("reader", Apply(Unset, LibOpts(opts)))

\* must, may or must not end with status 0 (before looking at any data)
Profiles(opts) == \E a, b \in 1..Len(opts) : opts[a].o = "P" /\ opts[b].o \in {"Px", "Py"}     \* one of them overrides the other
Dicts(opts) == \E a, b \in 1..Len(opts) : opts[a].o = "dx" /\ opts[b].o = "d"
Refused(opts) == \E k \in 1..Len(opts) : BadOpt(opts[k]) /\ (opts[k].o \in {"Px", "Py"} => ~Profiles(opts)) /\ (opts[k].o = "dx" => ~Dicts(opts))
RefusedHdr(opts) == \E o \in {"n", "m", "t"} : BadHdr([o |-> o, v |-> LastOf(opts, o, << >>)])
Unclear(opts) == Conflict(opts) \/ Profiles(opts) \/ Dicts(opts) \/ \E k \in 1..Len(opts) : Doubtful(opts[k]) \/ BadHdr(opts[k])
=============================================================================
