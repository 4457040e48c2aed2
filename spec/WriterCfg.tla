------------------------------- MODULE WriterCfg -------------------------------
(***************************************************************************)
(* What the options oblige the output to (C = the options in effect, m =   *)
(* the facts about one complete stream found by the independent decoder).  *)
(***************************************************************************)
EXTENDS Integers, Sequences

P2 == [i \in 0..16 |-> 2^i]
NoMatch(C) == C.strat \in {"huff"}
LowLevel(C) == C.strat \in {"huff", "rle"} \/ C.lvl < 2
FLevelOf(C) == IF LowLevel(C) THEN 0 ELSE IF C.lvl < 6 THEN 1 ELSE IF C.lvl = 6 THEN 2 ELSE 3
XflOf(C) == IF LowLevel(C) THEN 4 ELSE IF C.lvl = 9 THEN 2 ELSE 0

StreamWhy(C, m) ==
    (IF m.fmt # C.fmt THEN {"format"} ELSE {})
    \cup (IF C.fmt = "zlib" /\ m.zwb # C.wb THEN {"zlib-window-not-declared"} ELSE {})
    \cup (IF C.fmt = "zlib" /\ m.fdict # C.hasdict THEN {"zlib-FDICT"} ELSE {})
    \cup (IF C.fmt = "zlib" /\ m.flevel # FLevelOf(C) THEN {"zlib-level-hint"} ELSE {})
    \cup (IF C.fmt = "gzip" /\ m.xfl # XflOf(C) THEN {"gzip-level-hint"} ELSE {})
    \cup (IF m.maxd > P2[C.wb] THEN {"distance-beyond-window"} ELSE {})
    \cup (IF C.lvl = 0 /\ m.sdata > 0 THEN {"level-0-compressed-data"} ELSE {})
    \cup (IF C.strat = "huff" /\ m.ncopy > 0 THEN {"huffman-only-with-copies"} ELSE {})
    \cup (IF C.strat = "rle" /\ m.maxd > 1 THEN {"rle-with-distance"} ELSE {})
    \cup (IF C.strat = "fixed" /\ m.dynamic > 0 THEN {"fixed-with-dynamic-blocks"} ELSE {})
    \cup (IF m.finals # 1 THEN {"final-blocks"} ELSE {})

HeaderWhy(C, m, h) ==
    IF C.fmt # "gzip" THEN {}
    ELSE (IF m.name # h.name THEN {"header-name"} ELSE {})
         \cup (IF m.comment # h.comment THEN {"header-comment"} ELSE {})
         \cup (IF m.mtime # h.mtime THEN {"header-time"} ELSE {})
         \cup (IF h.os # "" /\ m.os # h.os THEN {"header-os"} ELSE {})
         \cup (IF m.extra # h.extra THEN {"header-extra"} ELSE {})
         \cup (IF m.text # (CASE h.text = "text" -> TRUE [] h.text = "binary" -> FALSE
                              [] m.istext = "text" -> TRUE [] m.istext = "binary" -> FALSE [] OTHER -> m.text)
               THEN {"header-text-flag"} ELSE {})

\* upper bound on the size of one stream of n bytes during which there were fl flushes
\* (C.lvl = 0 is never affected by the strategy)
SizeBound(C, m, fl) ==
    m.hdr + 24 + 12 * fl + m.n + m.n \div 40 + (IF C.strat = "fixed" /\ C.lvl # 0 THEN m.n \div 8 ELSE 0)
=============================================================================
