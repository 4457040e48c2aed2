-------------------------------- MODULE Bits --------------------------------
(* Bit strings, byte strings and the two checksums of RFC 1950 / RFC 1952.   *)
(* TLC integers are 32 bit signed, so 32-bit words are pairs <<hi16, lo16>>. *)
EXTENDS Naturals, Sequences, FiniteSets, Bitwise, SequencesExt, Folds, Functions

Pow2 == [i \in 0..30 |-> 2^i]

\* bit i (0-based, LSB first within each byte) of byte sequence b
Bit(b, i) == (b[(i \div 8) + 1] \div Pow2[i % 8]) % 2

\* n bits starting at bit i as a number, LSB first; caller checks availability
RECURSIVE BitsAcc(_, _, _, _, _)
BitsAcc(b, i, n, k, acc) ==
    IF k = n THEN acc ELSE BitsAcc(b, i, n, k + 1, acc + Bit(b, i + k) * Pow2[k])
GetBits(b, i, n) == BitsAcc(b, i, n, 0, 0)

U16le(b, p) == b[p + 1] + 256 * b[p + 2]          \* p = 0-based byte offset
U16be(b, p) == 256 * b[p + 1] + b[p + 2]

(* --- CRC-32, polynomial 0xedb88320 (reflected) --- *)
Xor32(x, y) == << x[1] ^^ y[1], x[2] ^^ y[2] >>
Shr1(x) == << x[1] \div 2, (x[2] \div 2) + (x[1] % 2) * 32768 >>
Shr8(x) == << x[1] \div 256, (x[2] \div 256) + (x[1] % 256) * 256 >>
Poly == << 60856, 33568 >>                         \* 0xedb8, 0x8320
RECURSIVE CrcBits(_, _)
CrcBits(x, n) ==
    IF n = 0 THEN x
    ELSE CrcBits(IF x[2] % 2 = 1 THEN Xor32(Shr1(x), Poly) ELSE Shr1(x), n - 1)
CrcTable == [i \in 0..255 |-> CrcBits(<<0, i>>, 8)]
CrcStep(x, ch) == Xor32(CrcTable[(x[2] % 256) ^^ ch], Shr8(x))
Ones == << 65535, 65535 >>
\* Crc32Update(sum, data): continue a finished sum over more data
Crc32Update(sum, data) == Xor32(Ones, FoldLeft(CrcStep, Xor32(Ones, sum), data))
Crc32(data) == Crc32Update(<<0, 0>>, data)

(* --- Adler-32: <<b, a>> --- *)
AdlerStep(x, ch) == LET a == (x[2] + ch) % 65521 IN << (x[1] + a) % 65521, a >>
Adler32Update(sum, data) == FoldLeft(AdlerStep, sum, data)
Adler32(data) == Adler32Update(<<0, 1>>, data)

Bytes32be(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256 >>
Bytes32le(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>
=============================================================================
