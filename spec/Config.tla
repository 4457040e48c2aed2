--------------------------------- MODULE Config ---------------------------------
(***************************************************************************)
(* Options: which values exist, what is in effect after a sequence of      *)
(* NewX(options) and Reset(options) calls, and what that means for input   *)
(* and output.                                                             *)
(*                                                                         *)
(* f format (0 default, 1 raw, 2 zlib, 3 gzip), s strategy (0 default,     *)
(* 1 Huffman only, 2 RLE, 3 fixed), l level, m memory level, w window      *)
(* bits, d dictionary (0 none, 1, 2, 3), t number of tracers, e method.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Valid == [f |-> 0..3, s |-> 0..3, e |-> {0}, l |-> -1..9, m |-> 0..9, w |-> {0} \cup 8..15, d |-> {0, 1}, t |-> {0, 1}]

Unset == [f |-> 0, s |-> 0, e |-> 0, l |-> -1, m |-> 0, w |-> 0, d |-> 0, t |-> 0]
Set(cfg, o) == [cfg EXCEPT ![o[1]] = o[2]]
Apply(cfg, opts) == FoldLeft(Set, cfg, opts)
Common(cfg) == [cfg EXCEPT !.m = IF @ = 0 THEN 9 ELSE @, !.w = IF @ = 0 THEN 15 ELSE @]
Defaults(side, cfg) == IF side = "reader" THEN Common(cfg)
                       ELSE [Common(cfg) EXCEPT !.f = IF @ = 0 THEN 2 ELSE @, !.l = IF @ = -1 THEN 6 ELSE @]
New(side, opts) == Defaults(side, Apply(Unset, opts))
Reset(side, cfg, opts) == Defaults(side, Apply(cfg, opts))

\* ------------------------------------------------ what a Reader accepts
\* must the Reader decode this input (TRUE), refuse it (FALSE)?
Accepts(cfg, probe) ==
    CASE probe \in {"raw", "rawdyn"} -> cfg.f \in {0, 1}
      [] probe = "zlib8"  -> cfg.f \in {0, 2} /\ cfg.d = 0
      [] probe = "zlib"   -> cfg.f \in {0, 2} /\ cfg.d = 0 /\ cfg.w = 15
      [] probe = "zlibd1" -> cfg.f \in {0, 2} /\ cfg.d = 1 /\ cfg.w = 15
      [] probe = "zlibd2" -> cfg.f \in {0, 2} /\ cfg.d = 2 /\ cfg.w = 15
      [] probe = "zlibd3" -> cfg.f \in {0, 2} /\ cfg.d = 3 /\ cfg.w = 15
      [] probe = "gzip"   -> cfg.f \in {0, 3}
\* gzip has no notion of a dictionary; a raw stream may use the whole window
Specified(cfg, probe) == ~(probe = "gzip" /\ cfg.d # 0) /\ ~(probe = "rawdyn" /\ cfg.w < 15)

\* ------------------------------------------------ what a Writer produces
OutFormat(cfg) == CASE cfg.f = 1 -> "raw" [] cfg.f = 2 -> "zlib" [] cfg.f = 3 -> "gzip"

\* what output e (a decoder's description of it) should be like under x
OutputWhy(x, e) ==
    LET If(b, r) == IF b THEN {r} ELSE {} IN
    If(~e.ok, "output-does-not-decode")
    \cup (IF ~e.ok THEN {} ELSE
          If(e.out # OutFormat(x), "output-format")
          \cup If(e.dictid # x.d /\ x.f = 2, "output-dictionary")
          \cup If(e.cinfo > x.w, "output-window")
          \cup If(x.l = 0 /\ ~e.stored, "level-0-compresses")
          \cup If(x.s = 3 /\ e.dyn, "fixed-strategy-with-dynamic-block")
          \cup If(x.s = 1 /\ e.copies, "Huffman-only-with-copies")
          \cup If(x.s = 2 /\ e.far, "RLE-with-distant-copies"))

ConfigInv(side, cfg) ==
    /\ cfg.m \in 1..9 /\ cfg.w \in 8..15
    /\ side = "writer" => cfg.f # 0 /\ cfg.l # -1
    /\ Defaults(side, cfg) = cfg
    /\ Reset(side, cfg, << >>) = cfg
=============================================================================
