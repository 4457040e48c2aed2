---------------------------- MODULE InflateEvents ----------------------------
(* The tracer events implied by the decoder machine's record of a run.       *)
EXTENDS Integers, Sequences, Outcome

NoH == [name |-> << >>, comment |-> << >>, mtime |-> <<0, 0>>, hastime |-> FALSE, text |-> "unknown", os |-> "unknown",
        extra |-> << >>, wb |-> 0, lvl |-> -1]
OSName == << "FAT", "Amiga", "VMS", "Unix", "VMCMS", "AtariTOS", "HPFS", "Macintosh", "ZSystem", "CPM", "TOPS20",
             "NTFS", "QDOS", "AcornRISCOS" >>
FLevel == << 1, 2, -1, 9 >>

\* the header event implied by the parsed header
HdrOf(f, h) ==
    CASE f = "gzip" ->
            [NoH EXCEPT !.name = h.name, !.comment = h.comment, !.mtime = h.mtime, !.hastime = h.mtime # <<0, 0>>,
                        !.text = IF h.text THEN "text" ELSE "binary",
                        !.os = IF h.os <= 13 THEN OSName[h.os + 1] ELSE "unknown",
                        !.extra = h.extra,
                        !.lvl = IF h.xfl = 2 THEN 9 ELSE IF h.xfl = 4 THEN 1 ELSE -1]
      [] f = "zlib" -> [NoH EXCEPT !.wb = h.wb, !.lvl = FLevel[h.flevel + 1]]
      [] OTHER -> NoH

NormEv(e) ==
    CASE e.t = "SH" -> [t |-> "SH", fmt |-> e.fmt, h |-> HdrOf(e.fmt, e.h)]
      [] e.t = "BT" -> [e EXCEPT !.ll = TrimZ(e.ll), !.d = TrimZ(e.d), !.x = TrimZ(e.x)]
      [] OTHER -> e

RECURSIVE CommonFrom(_, _, _)
CommonFrom(x, y, i) == IF i > Len(x) \/ i > Len(y) \/ x[i] # y[i] THEN i - 1 ELSE CommonFrom(x, y, i + 1)
=============================================================================
