--------------------------------- MODULE Huge ---------------------------------
(***************************************************************************)
(* Streams of which the lengths do not fit in 31 or 32 bits.               *)
(*                                                                         *)
(* Lengths are four 16-bit limbs, highest first.  The contents of a stream *)
(* are a sequence of parts: some bytes, or a number of zeros.  A run of n  *)
(* zeros moves a CRC-32 register by the n-th power of a linear map, an     *)
(* Adler-32 pair by n * a; both are evaluated here from the definitions of *)
(* module Bits, so the trailers that RFC 1950 and RFC 1952 require are     *)
(* known without looking at gigabytes.                                     *)
(***************************************************************************)
EXTENDS Bits

Z4 == <<0, 0, 0, 0>>
Add4(x, y) ==
    LET d == x[4] + y[4]
        c == x[3] + y[3] + (d \div 65536)
        b == x[2] + y[2] + (c \div 65536)
        a == x[1] + y[1] + (b \div 65536)
    IN << a % 65536, b % 65536, c % 65536, d % 65536 >>
Small(n) == << 0, 0, n \div 65536, n % 65536 >>
Low32(x) == << x[3], x[4] >>

(* --- a linear map on 32-bit words: the images of the 32 unit words --- *)
Unit(i) == IF i < 16 THEN <<0, Pow2[i]>> ELSE <<Pow2[i - 16], 0>>
HasBit(w, i) == IF i < 16 THEN (w[2] \div Pow2[i]) % 2 = 1 ELSE (w[1] \div Pow2[i - 16]) % 2 = 1
RECURSIVE Apply(_, _, _, _)
Apply(M, w, i, acc) == IF i = 32 THEN acc
                       ELSE Apply(M, w, i + 1, IF HasBit(w, i) THEN Xor32(acc, M[i + 1]) ELSE acc)
Mul(M, w) == Apply(M, w, 0, <<0, 0>>)
ZeroByte == [i \in 1..32 |-> CrcStep(Unit(i - 1), 0)]
Square(M) == [i \in 1..32 |-> Mul(M, M[i])]
\* ZeroPow[k + 1]: the map of 2^k zero bytes
RECURSIVE Pows(_, _)
Pows(k, acc) == IF k = 0 THEN acc ELSE Pows(k - 1, Append(acc, TLCEval(Square(acc[Len(acc)]))))
ZeroPow == TLCEval(Pows(35, << TLCEval(ZeroByte) >>))

\* bit k of a length
BitOf(n, k) == (n[4 - (k \div 16)] \div Pow2[k % 16]) % 2
RECURSIVE Zeros(_, _, _)
Zeros(reg, n, k) == IF k = 36 THEN reg ELSE Zeros(IF BitOf(n, k) = 1 THEN Mul(ZeroPow[k + 1], reg) ELSE reg, n, k + 1)
\* a finished CRC moved on by n zeros
CrcZeros(sum, n) == Xor32(Ones, Zeros(Xor32(Ones, sum), n, 0))

\* n modulo 65521, times a modulo 65521 (a < 65521), without large products
RECURSIVE MulMod(_, _, _)
MulMod(x, a, acc) == IF x = 0 THEN acc
                     ELSE MulMod(x \div 2, (2 * a) % 65521, IF x % 2 = 1 THEN (acc + a) % 65521 ELSE acc)
RECURSIVE ModLimbs(_, _, _)
ModLimbs(n, k, acc) == IF k = 5 THEN acc ELSE ModLimbs(n, k + 1, (MulMod(65536 % 65521, acc, 0) + n[k]) % 65521)
AdlerZeros(x, n) == << (x[1] + MulMod(ModLimbs(n, 1, 0), x[2], 0)) % 65521, x[2] >>

\* the state of a stream: checksums and length
Fresh == [crc |-> <<0, 0>>, adl |-> <<0, 1>>, len |-> Z4]
Move(s, p) == [crc |-> CrcZeros(Crc32Update(s.crc, p.b), p.n),
               adl |-> AdlerZeros(Adler32Update(s.adl, p.b), p.n),
               len |-> Add4(s.len, Add4(Small(Len(p.b)), p.n))]
=============================================================================
