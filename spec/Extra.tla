---------------------------------- MODULE Extra ----------------------------------
(***************************************************************************)
(* The extra field of a gzip header (RFC 1952, 2.3.1.1): records of two    *)
(* identifying bytes, a length of two bytes (least significant first) and  *)
(* that many bytes.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Rest(b, k) == SubSeq(b, k + 1, Len(b))
RecLen(b) == b[3] + 256 * b[4]
RECURSIVE Parse(_)
\* the well-formed records at the start of b
Parse(b) == IF Len(b) < 4 THEN << >> ELSE IF RecLen(b) > Len(b) - 4 THEN << >>
            ELSE << [id |-> SubSeq(b, 1, 2), bytes |-> SubSeq(b, 5, 4 + RecLen(b))] >> \o Parse(Rest(b, 4 + RecLen(b)))
EncRec(r) == r.id \o << Len(r.bytes) % 256, Len(r.bytes) \div 256 >> \o r.bytes
Enc(rs) == FoldLeft(LAMBDA a, r : a \o EncRec(r), << >>, rs)
=============================================================================
