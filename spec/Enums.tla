--------------------------------- MODULE Enums ---------------------------------
(***************************************************************************)
(* The enumerations: values, Go names, text names and aliases, and what    *)
(* Parse accepts. Texts are sequences of byte codes.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Alphabet == " !?#$?&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[?]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(ch) == CHOOSE k \in 32..126 : SubSeq(Alphabet, k - 31, k - 31) = ch /\ (ch = "?" => k = 63)
\* (SubSeq makes TLC evaluate the elements at once)
Codes(s) == SubSeq([k \in 1..Len(s) |-> Ord(SubSeq(s, k, k))], 1, Len(s))
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Fold(q) == SubSeq([k \in 1..Len(q) |-> Low(q[k])], 1, Len(q))

\* g: Go name, n: text, fold: all texts that denote the value, in lower case
E(g, n) == [g |-> Codes(g), n |-> Codes(n), fold |-> {Fold(Codes(g)), Fold(Codes(n))}]
A(g, n, a) == [g |-> Codes(g), n |-> Codes(n), fold |-> {Fold(Codes(g)), Fold(Codes(n)), Fold(Codes(a))}]

\* enumerations with named values 0, 1, 2, ...
Named == [
  Format    |-> << A("DefaultFormat", "auto", "default"), E("RawFormat", "raw"), E("ZlibFormat", "zlib"), E("GZIPFormat", "gzip") >>,
  Strategy  |-> << E("DefaultStrategy", "default"), E("HuffmanOnlyStrategy", "huffman-only"), E("HuffmanRLEStrategy", "huffman-rle"), E("FixedStrategy", "fixed") >>,
  Method    |-> << E("DeflateMethod", "deflate") >>,
  FlushType |-> << E("BlockFlush", "block"), E("PartialFlush", "partial"), E("SyncFlush", "sync"), E("FullFlush", "full"), E("FinishFlush", "finish") >>,
  DataType  |-> << E("UnknownData", "unknown"), E("BinaryData", "binary"), E("TextData", "text") >>,
  BlockType |-> << E("InvalidBlock", "invalid"), E("StoredBlock", "stored"), E("StaticBlock", "static"), E("DynamicBlock", "dynamic") >>,
  EventType |-> << E("StreamBeginEvent", "stream-begin"), E("StreamHeaderEvent", "stream-header"), E("BlockBeginEvent", "block-begin"),
                   E("BlockTreesEvent", "block-trees"), E("BlockEndEvent", "block-end"), E("StreamEndEvent", "stream-end"), E("StreamCloseEvent", "stream-close") >>,
  OSType    |-> << E("OSTypeUnknown", "unknown"), E("OSTypeFAT", "FAT filesystem"), E("OSTypeAmiga", "Amiga"), E("OSTypeVMS", "VMS"), E("OSTypeUnix", "Unix"),
                   E("OSTypeVMCMS", "VM/CMS"), E("OSTypeAtariTOS", "Atari TOS"), E("OSTypeHPFS", "HPFS filesystem"), E("OSTypeMacintosh", "Macintosh"),
                   E("OSTypeZSystem", "Z-System"), E("OSTypeCPM", "CP/M"), E("OSTypeTOPS20", "TOPS-20"), E("OSTypeNTFS", "NTFS filesystem"),
                   E("OSTypeQDOS", "QDOS"), E("OSTypeAcornRISCOS", "Acorn RISCOS") >> ]

\* enumerations of numbers: the default, the others, and texts besides numbers
Numeric == [
  CompressLevel |-> [def |-> -1, vals |-> 0..9, go |-> Codes("DefaultCompression"), texts |-> << <<Codes("default"), -1>>, <<Codes("none"), 0>> >>],
  MemoryLevel   |-> [def |-> 0, vals |-> 1..9, go |-> Codes("DefaultMemory"), texts |-> << <<Codes("default"), 0>> >>],
  WindowBits    |-> [def |-> 0, vals |-> 8..15, go |-> Codes("DefaultWindowBits"), texts |-> << <<Codes("default"), 0>> >>] ]

IsNamed(t) == t \in DOMAIN Named
Values(t) == IF IsNamed(t) THEN 0..(Len(Named[t]) - 1) ELSE Numeric[t].vals \cup {Numeric[t].def}

Digits(n) == IF n < 10 THEN << 48 + n >> ELSE << 48 + (n \div 10), 48 + (n % 10) >>

Text(t, v) == IF IsNamed(t) THEN Named[t][v + 1].n
              ELSE IF \E k \in 1..Len(Numeric[t].texts) : Numeric[t].texts[k][2] = v
                   THEN Numeric[t].texts[CHOOSE k \in 1..Len(Numeric[t].texts) : Numeric[t].texts[k][2] = v][1]
                   ELSE Digits(v)
GoText(t, v) == IF IsNamed(t) THEN Named[t][v + 1].g
                ELSE IF v = Numeric[t].def THEN Numeric[t].go
                ELSE Codes(t) \o << 40 >> \o Digits(v) \o << 41 >>

IsDigits(q) == q # << >> /\ \A k \in 1..Len(q) : q[k] \in 48..57
Num(q) == FoldLeft(LAMBDA acc, c : IF acc > 99 THEN 1000 ELSE acc * 10 + c - 48, 0, q)   \* 1000 = too big
Canonical(q) == IsDigits(q) /\ (q[1] # 48 \/ Len(q) = 1)

\* the values that a text denotes (at most one)
Denotes(t, q) ==
    IF IsNamed(t)
    THEN LET f == Fold(q) IN {v \in Values(t) : f \in Named[t][v + 1].fold}
    ELSE {Numeric[t].texts[k][2] : k \in {j \in 1..Len(Numeric[t].texts) : Fold(q) = Numeric[t].texts[j][1]}}
         \cup (IF IsDigits(q) /\ Num(q) \in Values(t) /\ (t # "WindowBits" \/ Num(q) # 0) THEN {Num(q)} ELSE {})
\* texts that a parser may or may not accept
Optional(t, q) == ~IsNamed(t) /\ IsDigits(q) /\ (~Canonical(q) \/ Num(q) = Numeric[t].def)

\* ------------------------------------------------ checksums as texts
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
IsHex(q) == q # << >> /\ \A k \in 1..Len(q) : HexVal(q[k]) >= 0
Strip(q) == FoldLeft(LAMBDA acc, c : IF acc = << >> /\ c = 48 THEN acc ELSE Append(acc, c), << >>, q)
HexNum(q) == FoldLeft(LAMBDA acc, c : acc * 16 + HexVal(c), 0, q)
Body(q) == IF Len(q) >= 2 /\ q[1] = 48 /\ q[2] = 120 THEN SubSeq(q, 3, Len(q)) ELSE q
\* the 32-bit words (as halves) that a text denotes
Words(q) ==
    LET b == Body(q) IN
    IF ~IsHex(b) THEN {}
    ELSE LET s == Strip(b)  n == Len(s) IN
         IF n > 8 THEN {} ELSE {<< HexNum(SubSeq(s, 1, n - 4)), HexNum(SubSeq(s, IF n > 4 THEN n - 3 ELSE 1, n)) >>}

(* The tables are usable: texts are distinct and denote their value, in any  *)
(* letter case.                                                              *)
Up(q) == SubSeq([k \in 1..Len(q) |-> IF q[k] \in 97..122 THEN q[k] - 32 ELSE q[k]], 1, Len(q))
Types == DOMAIN Named \cup DOMAIN Numeric
TablesOK ==
    /\ \A t \in Types : \A v, w \in Values(t) :
         v # w => Text(t, v) # Text(t, w) /\ GoText(t, v) # GoText(t, w) /\ Fold(Text(t, v)) # Fold(Text(t, w))
    /\ \A t \in Types : \A v \in Values(t) : Denotes(t, Text(t, v)) = {v} /\ Denotes(t, Up(Text(t, v))) = {v}
    /\ Words(Codes("0xdeadbeef")) = {<<57005, 48879>>} /\ Words(Codes("12345")) = {<<1, 9029>>} /\ Words(Codes("0")) = {<<0, 0>>}
    /\ Words(Codes("123456789")) = {} /\ Words(Codes("000123456789")) = {} /\ Words(Codes("0x")) = {}
=============================================================================
