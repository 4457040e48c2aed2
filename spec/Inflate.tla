------------------------------- MODULE Inflate -------------------------------
(***************************************************************************)
(* RFC 1951 (DEFLATE), RFC 1950 (zlib) and RFC 1952 (gzip) decoding as an  *)
(* explicit state machine at the level of bits.                            *)
(*                                                                         *)
(* A *case* is a record                                                    *)
(*   b     : the compressed bytes (a sequence of 0..255)                   *)
(*   fmt   : "auto" | "raw" | "zlib" | "gzip"                              *)
(*   wb    : window bits of the decoder                                    *)
(*   dict  : preset dictionary, hasdict : whether there is one             *)
(*   srcerr: "" or the name of the error with which the source ends        *)
(*                                                                         *)
(* The machine's state is a record (see Start); Step gives the successor.  *)
(* `phase` = "done" is final; then `err` is the verdict                    *)
(*   "EOF"      the source ended at a boundary between streams             *)
(*   "UEOF"     the source ended inside a stream                           *)
(*   "CORRUPT"  the input violates the format                              *)
(*   otherwise  the source's own error                                     *)
(* and `alt` holds alternative outcomes that are also acceptable, because  *)
(* the RFCs leave the point open (incomplete codes, ambiguous order of     *)
(* detection): each is [err |-> class, lo |-> n, hi |-> n], the data being *)
(* a prefix of `full` with a length in lo..hi.                             *)
(***************************************************************************)
EXTENDS Bits, Integers, TLC

LenBase  == << 3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258 >>
LenExtra == << 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0 >>
DistBase == << 1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,
               4097,6145,8193,12289,16385,24577 >>
DistExtra== << 0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13 >>
ClOrder  == << 16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15 >>

----------------------------------------------------------------------------
(* Canonical Huffman codes.  A code is [cnt, sym]: cnt[l] = number of codes *)
(* of length l, sym = the symbols sorted by (length, symbol).               *)
MaxLen == 15

SymbolsOfLen(lens, l) ==
    LET n == Len(lens) IN
    SelectSeq([i \in 1..n |-> i - 1], LAMBDA s : lens[s + 1] = l)

MkCode(lens) ==
    LET per == [l \in 1..MaxLen |-> SymbolsOfLen(lens, l)] IN
    [ cnt |-> TLCEval([l \in 1..MaxLen |-> Len(per[l])]),
      sym |-> TLCEval(FoldLeft(LAMBDA acc, s : acc \o s, << >>, per)) ]

\* what is left of the code space: 0 = complete, < 0 = over-subscribed
RECURSIVE LeftFrom(_, _, _)
LeftFrom(cnt, l, left) ==
    IF l > MaxLen THEN left
    ELSE LET x == 2 * left - cnt[l] IN
         IF x < 0 THEN -1 ELSE LeftFrom(cnt, l + 1, x)
CodeLeft(cnt) == LeftFrom(cnt, 1, 1)

\* Result of decoding one symbol: [st |-> "ok"|"eof"|"bad", sym, p]
RECURSIVE DecodeFrom(_, _, _, _, _, _, _)
DecodeFrom(b, p, h, l, code, first, index) ==
    IF l > MaxLen THEN [st |-> "bad", sym |-> 0, p |-> p]
    ELSE IF p >= 8 * Len(b) THEN [st |-> "eof", sym |-> 0, p |-> p]
    ELSE LET c == code + Bit(b, p)
             k == h.cnt[l]
         IN IF c - k < first
            THEN [st |-> "ok", sym |-> h.sym[index + (c - first) + 1], p |-> p + 1]
            ELSE DecodeFrom(b, p + 1, h, l + 1, 2 * c, 2 * (first + k), index + k)
DecodeSym(b, p, h) == DecodeFrom(b, p, h, 1, 0, 0, 0)

FixedLL == TLCEval(MkCode([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8]))
FixedD  == TLCEval(MkCode([i \in 1..32 |-> 5]))
FixedLLLens == TLCEval([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8])
FixedDLens  == TLCEval([i \in 1..32 |-> 5])
NoCode == TLCEval([cnt |-> [l \in 1..MaxLen |-> 0], sym |-> << >>])

----------------------------------------------------------------------------
NoHdr == [ name |-> << >>, comment |-> << >>, mtime |-> <<0, 0>>, text |-> FALSE, os |-> 255,
           extra |-> << >>, xfl |-> 0, wb |-> 0, flevel |-> -1, fdict |-> FALSE, hasname |-> FALSE, hascomment |-> FALSE ]

Start(c) ==
    [ phase |-> "hdr", p |-> 0, out |-> << >>, mo |-> << >>, fmt |-> "", mstart |-> 0,
      fin |-> FALSE, typ |-> "", hll |-> NoCode, hd |-> NoCode, ev |-> << >>, err |-> "",
      alt |-> {}, extra |-> << >>, nm |-> 0, at |-> "", am |-> {} ]

Full(s) == s.out \o s.mo \o s.extra
NOut(s) == Len(s.out) + Len(s.mo)

Stop(s, e) == [s EXCEPT !.phase = "done", !.err = e, !.at = s.phase]
Corrupt(s) == Stop(s, "CORRUPT")
TruncName(c) == IF c.srcerr = "" THEN "UEOF" ELSE c.srcerr
Trunc(c, s) == Stop(s, TruncName(c))
\* am: the places (start of the stream, bit, element) where a permitted strictness would stop with CORRUPT
AddAlt(s, e) == [s EXCEPT !.alt = @ \cup {[err |-> e, lo |-> NOut(s), hi |-> NOut(s)]},
                          !.am = IF e = "CORRUPT" THEN @ \cup {[mstart |-> s.mstart, p |-> s.p, at |-> s.phase]} ELSE @]
TruncOrCorrupt(c, s) == Trunc(c, AddAlt(s, "CORRUPT"))
CorruptOrTrunc(c, s) == Corrupt(AddAlt(s, TruncName(c)))
Emit(s, e) == [s EXCEPT !.ev = Append(@, e)]

----------------------------------------------------------------------------
(* Headers.  q = 0-based byte offset of the header; n = number of bytes.   *)

RECURSIVE FindZero(_, _)
FindZero(b, q) == IF q >= Len(b) THEN -1 ELSE IF b[q + 1] = 0 THEN q ELSE FindZero(b, q + 1)

RECURSIVE ParseExtra(_)
ParseExtra(x) ==
    IF Len(x) < 4 THEN << >>
    ELSE LET n == x[3] + 256 * x[4] IN
         IF Len(x) - 4 < n THEN << >>
         ELSE << [id |-> << x[1], x[2] >>, bytes |-> SubSeq(x, 5, 4 + n)] >>
              \o ParseExtra(SubSeq(x, 5 + n, Len(x)))

\* each header operator returns [st |-> "ok"|"trunc"|"corrupt"|"trunc?"|"corrupt?", q, h]
HRes(st, q, h) == [st |-> st, q |-> q, h |-> h]

GzipHeader(c, q) ==
    LET b == c.b
        n == Len(b)
        avail == n - q
        BadSoFar == \/ avail >= 1 /\ b[q + 1] # 31
                    \/ avail >= 2 /\ b[q + 2] # 139
                    \/ avail >= 3 /\ b[q + 3] # 8
                    \/ avail >= 4 /\ b[q + 4] >= 32
    IN IF avail < 10 THEN HRes(IF BadSoFar THEN "trunc?" ELSE "trunc", q, NoHdr)
       ELSE IF BadSoFar THEN HRes("corrupt", q, NoHdr)
       ELSE LET flg == b[q + 4]
                F(k) == (flg \div Pow2[k]) % 2 = 1
                h0 == [NoHdr EXCEPT !.text = F(0), !.mtime = << b[q+7] + 256*b[q+8], b[q+5] + 256*b[q+6] >>,
                                    !.xfl = b[q + 9], !.os = b[q + 10]]
                \* FEXTRA
                q1 == q + 10
                x1 == IF ~F(2) THEN "ok" ELSE IF n - q1 < 2 THEN "trunc"
                      ELSE IF n - q1 - 2 < U16le(b, q1) THEN "trunc" ELSE "ok"
            IN IF x1 # "ok" THEN HRes(x1, q, h0)
               ELSE LET xl == IF F(2) THEN U16le(b, q1) ELSE 0
                        h1 == IF F(2) THEN [h0 EXCEPT !.extra = ParseExtra(SubSeq(b, q1 + 3, q1 + 2 + xl))] ELSE h0
                        q2 == IF F(2) THEN q1 + 2 + xl ELSE q1
                        z2 == IF F(3) THEN FindZero(b, q2) ELSE 0
                    IN IF F(3) /\ z2 < 0 THEN HRes("trunc", q, h1)
                       ELSE LET h2 == IF F(3) THEN [h1 EXCEPT !.name = SubSeq(b, q2 + 1, z2), !.hasname = TRUE] ELSE h1
                                q3 == IF F(3) THEN z2 + 1 ELSE q2
                                z3 == IF F(4) THEN FindZero(b, q3) ELSE 0
                            IN IF F(4) /\ z3 < 0 THEN HRes("trunc", q, h2)
                               ELSE LET h3 == IF F(4) THEN [h2 EXCEPT !.comment = SubSeq(b, q3 + 1, z3), !.hascomment = TRUE] ELSE h2
                                        q4 == IF F(4) THEN z3 + 1 ELSE q3
                                    IN IF ~F(1) THEN HRes("ok", q4, h3)
                                       ELSE IF n - q4 < 2 THEN HRes("trunc", q, h3)
                                       ELSE IF U16le(b, q4) # Crc32(SubSeq(b, q + 1, q4))[2]
                                            THEN HRes("corrupt", q, h3)
                                            ELSE HRes("ok", q4 + 2, h3)

ZlibHeader(c, q) ==
    LET b == c.b
        n == Len(b)
        avail == n - q
    IN IF avail < 2
       THEN HRes(IF avail = 1 /\ (b[q+1] % 16 # 8 \/ b[q+1] \div 16 > 7) THEN "trunc?" ELSE "trunc", q, NoHdr)
       ELSE LET wbits == 8 + b[q + 1] \div 16
                fdict == (b[q + 2] \div 32) % 2 = 1
                h == [NoHdr EXCEPT !.wb = wbits, !.flevel = b[q + 2] \div 64, !.fdict = fdict]
            IN IF \/ U16be(b, q) % 31 # 0
                  \/ b[q + 1] % 16 # 8
                  \/ wbits > 15 \/ wbits > c.wb
               THEN HRes("corrupt", q, h)
               ELSE IF ~fdict THEN (IF c.hasdict THEN HRes("corrupt", q, h) ELSE HRes("ok", q + 2, h))
               ELSE IF avail < 6 THEN HRes(IF c.hasdict THEN "trunc" ELSE "trunc?", q, h)
               ELSE IF ~c.hasdict THEN HRes("corrupt", q, h)
               ELSE LET a == Adler32(c.dict) IN
                    IF SubSeq(b, q + 3, q + 6) # Bytes32be(a) THEN HRes("corrupt", q, h)
                    ELSE HRes("ok", q + 6, h)

RawHeader(c, q) == HRes("ok", q, NoHdr)

\* automatic detection by the first two bytes of the stream
Detect(b, q) ==
    IF Len(b) - q < 2 THEN "raw"
    ELSE IF b[q + 1] = 31 /\ b[q + 2] = 139 THEN "gzip"
    ELSE IF b[q + 1] % 16 = 8 /\ U16be(b, q) % 31 = 0 THEN "zlib"
    ELSE "raw"

StepHdr(c, s) ==
    LET q == s.p \div 8 IN
    IF q = Len(c.b) THEN Stop(s, IF c.srcerr = "" THEN "EOF" ELSE c.srcerr)
    ELSE LET f == IF c.fmt = "auto" THEN Detect(c.b, q) ELSE c.fmt
             r == CASE f = "gzip" -> GzipHeader(c, q)
                    [] f = "zlib" -> ZlibHeader(c, q)
                    [] OTHER      -> RawHeader(c, q)
             s0 == [s EXCEPT !.out = @ \o s.mo, !.mo = << >>, !.mstart = q, !.nm = @ + 1]
             s1 == Emit(s0, [t |-> "SB", in |-> 0, out |-> 0])
             \* with a single byte left the format cannot be recognised yet
             s2 == IF c.fmt = "auto" /\ Len(c.b) - q = 1 THEN AddAlt(s1, TruncName(c)) ELSE s1
         IN CASE r.st = "trunc"    -> Trunc(c, s2)
              [] r.st = "trunc?"   -> TruncOrCorrupt(c, s2)
              [] r.st = "corrupt"  -> Corrupt(s2)
              [] OTHER -> Emit([s2 EXCEPT !.phase = "blk", !.p = 8 * r.q, !.fmt = f],
                               [t |-> "SH", fmt |-> f, h |-> r.h])

----------------------------------------------------------------------------
(* Blocks *)

Hist(c, s) == Len(c.dict) + Len(s.mo)
\* byte at distance d before the end of the history
HistAt(c, s, i) ==     \* i is 1-based from the start of dict \o mo
    IF i <= Len(c.dict) THEN c.dict[i] ELSE s.mo[i - Len(c.dict)]

StepBlk(c, s) ==
    LET b == c.b  nb == 8 * Len(b) IN
    IF nb - s.p < 3 THEN Trunc(c, s)
    ELSE LET fin == Bit(b, s.p) = 1
             typ == GetBits(b, s.p + 1, 2)
             s1 == [s EXCEPT !.p = @ + 3, !.fin = fin,
                             !.typ = CASE typ = 0 -> "stored" [] typ = 1 -> "static" [] typ = 2 -> "dynamic" [] OTHER -> "bad"]
             s2 == Emit(s1, [t |-> "BB", typ |-> s1.typ, fin |-> fin])
         IN CASE typ = 0 -> [s2 EXCEPT !.phase = "stored"]
              [] typ = 1 -> Emit([s2 EXCEPT !.phase = "sym", !.hll = FixedLL, !.hd = FixedD],
                                 [t |-> "BT", typ |-> "static", fin |-> fin, ll |-> FixedLLLens, d |-> FixedDLens,
                                  nx |-> 0, nll |-> 0, nd |-> 0, x |-> << >>])
              [] typ = 2 -> [s2 EXCEPT !.phase = "trees"]
              [] OTHER   -> Corrupt(s2)

EndBlock(s) ==
    LET s1 == Emit(s, [t |-> "BE", typ |-> s.typ, fin |-> s.fin]) IN
    [s1 EXCEPT !.phase = IF s.fin THEN "ftr" ELSE "blk", !.hll = NoCode, !.hd = NoCode]

StepStored(c, s) ==
    LET b == c.b  n == Len(b)
        q == (s.p + 7) \div 8
    IN IF n - q < 4 THEN
            IF n - q = 3 /\ b[q + 1] + b[q + 3] # 255 THEN TruncOrCorrupt(c, s) ELSE Trunc(c, s)
       ELSE LET len == U16le(b, q) IN
            IF U16le(b, q + 2) # 65535 - len THEN Corrupt(s)
            ELSE IF n - q - 4 < len
            THEN \* data that is there may or may not be delivered
                 LET part == SubSeq(b, q + 5, n)
                     s1 == Trunc(c, [s EXCEPT !.extra = part])
                 IN [s1 EXCEPT !.alt = @ \cup {[err |-> TruncName(c), lo |-> NOut(s), hi |-> NOut(s) + Len(part)]}]
            ELSE EndBlock([s EXCEPT !.p = 8 * (q + 4 + len), !.mo = @ \o SubSeq(b, q + 5, q + 4 + len)])

(* Code length section of a dynamic block: returns                          *)
(* [st |-> "ok"|"trunc"|"corrupt"|"corrupt?", p, lens]                       *)
RECURSIVE ReadLens(_, _, _, _, _)
ReadLens(b, p, h, lens, total) ==
    IF Len(lens) = total THEN [st |-> "ok", p |-> p, lens |-> lens]
    ELSE LET r == DecodeSym(b, p, h)
             need == IF r.sym = 16 THEN 2 ELSE IF r.sym = 17 THEN 3 ELSE 7
         IN IF r.st = "eof" THEN [st |-> IF CodeLeft(h.cnt) = 0 THEN "trunc" ELSE "trunc?", p |-> p, lens |-> lens]
            ELSE IF r.st = "bad" THEN [st |-> IF 8 * Len(b) - p < 15 THEN "corrupt?" ELSE "corrupt", p |-> p, lens |-> lens]
            ELSE IF r.sym < 16 THEN ReadLens(b, r.p, h, Append(lens, r.sym), total)
            ELSE IF r.sym = 16 /\ lens = << >> THEN [st |-> "corrupt", p |-> p, lens |-> lens]
            ELSE IF 8 * Len(b) - r.p < need
                 THEN \* any value of the missing bits may already overflow
                      [st |-> IF total - Len(lens) < (IF r.sym = 18 THEN 11 ELSE 3) THEN "trunc?" ELSE "trunc", p |-> p, lens |-> lens]
            ELSE LET k == GetBits(b, r.p, need) + (IF r.sym = 18 THEN 11 ELSE 3)
                     v == IF r.sym = 16 THEN lens[Len(lens)] ELSE 0
                 IN IF k > total - Len(lens) THEN [st |-> "corrupt", p |-> p, lens |-> lens]
                    ELSE ReadLens(b, r.p + need, h, TLCEval(lens \o [i \in 1..k |-> v]), total)

StepTrees(c, s) ==
    LET b == c.b  nb == 8 * Len(b)  p0 == s.p IN
    IF nb - p0 < 14
    THEN IF \/ nb - p0 >= 5 /\ GetBits(b, p0, 5) > 29
            \/ nb - p0 >= 10 /\ GetBits(b, p0 + 5, 5) > 29
         THEN TruncOrCorrupt(c, s) ELSE Trunc(c, s)
    ELSE LET nll == 257 + GetBits(b, p0, 5)
             nd  == 1 + GetBits(b, p0 + 5, 5)
             nx  == 4 + GetBits(b, p0 + 10, 4)
         IN IF nll > 286 \/ nd > 30 THEN Corrupt(s)
            ELSE IF nb - p0 - 14 < 3 * nx THEN Trunc(c, s)
            ELSE LET xl == TLCEval([i \in 1..19 |->
                              IF \E k \in 1..nx : ClOrder[k] = i - 1
                              THEN LET k == CHOOSE k \in 1..nx : ClOrder[k] = i - 1
                                   IN GetBits(b, p0 + 14 + 3 * (k - 1), 3)
                              ELSE 0])
                     hx == MkCode(xl)
                     leftx == CodeLeft(hx.cnt)
                 IN IF leftx < 0 THEN Corrupt(s)
                    ELSE LET s1 == IF leftx > 0 THEN AddAlt(s, "CORRUPT") ELSE s
                             r == ReadLens(b, p0 + 14 + 3 * nx, hx, << >>, nll + nd)
                         IN CASE r.st = "trunc"    -> Trunc(c, s1)
                              [] r.st = "trunc?"   -> TruncOrCorrupt(c, s1)
                              [] r.st = "corrupt"  -> Corrupt(s1)
                              [] r.st = "corrupt?" -> CorruptOrTrunc(c, s1)
                              [] OTHER ->
                                 LET ll == SubSeq(r.lens, 1, nll)
                                     dd == SubSeq(r.lens, nll + 1, nll + nd)
                                     hll == MkCode(ll)  hd == MkCode(dd)
                                     lft == CodeLeft(hll.cnt)  dft == CodeLeft(hd.cnt)
                                     dsingle == Len(hd.sym) = 0 \/ (Len(hd.sym) = 1 /\ hd.cnt[1] = 1)
                                     lenient == lft > 0 \/ (dft > 0 /\ ~dsingle) \/ ll[257] = 0
                                     s2 == IF lenient THEN AddAlt(s1, "CORRUPT") ELSE s1
                                 IN IF lft < 0 \/ dft < 0 THEN Corrupt(s1)
                                    ELSE Emit([s2 EXCEPT !.phase = "sym", !.p = r.p, !.hll = hll, !.hd = hd],
                                              [t |-> "BT", typ |-> "dynamic", fin |-> s.fin, ll |-> ll, d |-> dd,
                                               nx |-> nx, nll |-> nll, nd |-> nd, x |-> xl])

\* after a failed symbol decode: ran out of input, or no such code
SymFail(c, s, r, h) ==
    IF r.st = "eof"
    THEN IF CodeLeft(h.cnt) = 0 THEN Trunc(c, s) ELSE TruncOrCorrupt(c, s)
    ELSE IF 8 * Len(c.b) - s.p < 64 THEN CorruptOrTrunc(c, s) ELSE Corrupt(s)

Copy(c, s, len, dist) ==
    LET base == Hist(c, s) - dist
        mo2 == TLCEval(s.mo \o [i \in 1..len |-> HistAt(c, s, base + 1 + ((i - 1) % dist))])
    IN [s EXCEPT !.mo = mo2]

StepSym(c, s) ==
    LET b == c.b  nb == 8 * Len(b)
        r == DecodeSym(b, s.p, s.hll)
    IN IF r.st # "ok" THEN SymFail(c, s, r, s.hll)
       ELSE IF r.sym < 256 THEN [s EXCEPT !.p = r.p, !.mo = Append(@, r.sym)]
       ELSE IF r.sym = 256 THEN EndBlock([s EXCEPT !.p = r.p])
       ELSE IF r.sym > 285 THEN Corrupt(s)
       ELSE LET le == LenExtra[r.sym - 256] IN
            IF nb - r.p < le THEN Trunc(c, s)
            ELSE LET len == LenBase[r.sym - 256] + GetBits(b, r.p, le)
                     p1 == r.p + le
                     rd == DecodeSym(b, p1, s.hd)
                 IN IF rd.st # "ok" THEN SymFail(c, [s EXCEPT !.p = p1], rd, s.hd)
                    ELSE IF rd.sym > 29 THEN Corrupt(s)
                    ELSE LET de == DistExtra[rd.sym + 1] IN
                         IF nb - rd.p < de
                         THEN IF DistBase[rd.sym + 1] > Hist(c, s) \/ DistBase[rd.sym + 1] > Pow2[c.wb]
                              THEN TruncOrCorrupt(c, s) ELSE Trunc(c, s)
                         ELSE LET dist == DistBase[rd.sym + 1] + GetBits(b, rd.p, de) IN
                              IF dist > Hist(c, s) \/ dist > Pow2[c.wb] THEN Corrupt(s)
                              ELSE LET s1 == [s EXCEPT !.p = rd.p + de] IN
                                   \* the RFC gives code 284 to lengths up to 257 only
                                   Copy(c, IF r.sym = 284 /\ len = 258 THEN AddAlt(s1, "CORRUPT") ELSE s1, len, dist)

----------------------------------------------------------------------------
(* Trailers *)

StepFtr(c, s0) ==
    LET b == c.b  n == Len(b)
        q == (s0.p + 7) \div 8
        a == Adler32(s0.mo)
        crc == Crc32(s0.mo)
        s == Emit([s0 EXCEPT !.p = 8 * q], [t |-> "SE", in |-> q - s0.mstart, out |-> Len(s0.mo), a32 |-> a, c32 |-> crc])
        Fin(k) == Emit([s EXCEPT !.p = 8 * (q + k), !.phase = "hdr"],
                        [t |-> "SC", in |-> q + k - s.mstart, out |-> Len(s.mo)])
        size == << Len(s.mo) \div 65536, Len(s.mo) % 65536 >>
    IN CASE s.fmt = "raw"  -> Fin(0)
         [] s.fmt = "zlib" ->
              IF n - q < 4 THEN (IF IsPrefix(SubSeq(b, q + 1, n), Bytes32be(a)) THEN Trunc(c, s) ELSE TruncOrCorrupt(c, s))
              ELSE IF SubSeq(b, q + 1, q + 4) = Bytes32be(a) THEN Fin(4) ELSE Corrupt(s)
         [] s.fmt = "gzip" ->
              LET want == Bytes32le(crc) \o Bytes32le(size) IN
              IF n - q < 8 THEN (IF IsPrefix(SubSeq(b, q + 1, n), want) THEN Trunc(c, s) ELSE TruncOrCorrupt(c, s))
              ELSE IF SubSeq(b, q + 1, q + 8) = want THEN Fin(8) ELSE Corrupt(s)

Step(c, s) ==
    CASE s.phase = "hdr"    -> StepHdr(c, s)
      [] s.phase = "blk"    -> StepBlk(c, s)
      [] s.phase = "stored" -> StepStored(c, s)
      [] s.phase = "trees"  -> StepTrees(c, s)
      [] s.phase = "sym"    -> StepSym(c, s)
      [] s.phase = "ftr"    -> StepFtr(c, s)

----------------------------------------------------------------------------
(* Structural invariants of the machine (checked on every state reached).  *)
Sane(c, s) ==
    /\ s.phase \in {"hdr", "blk", "stored", "trees", "sym", "ftr", "done"}
    /\ s.p \in 0..(8 * Len(c.b))
    /\ s.phase \in {"hdr", "done"} \/ s.mstart * 8 <= s.p
    /\ (s.phase = "done") = (s.err # "")
    /\ \A a \in s.alt : a.lo <= a.hi /\ a.hi <= Len(Full(s)) + 0
    /\ s.phase = "hdr" => s.p % 8 = 0
=============================================================================
