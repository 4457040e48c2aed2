-------------------------------- MODULE CliGen ---------------------------------
(* All command lines with up to MaxOpts options, for replay into the command; *)
(* invariant: what they mean is a configuration that the library accepts.    *)
EXTENDS Cli
CONSTANT MaxOpts
VARIABLES hist, opts
T(o, s) == [tok |-> o \o "=" \o s, o |-> o, v |-> Codes(s)]
N(o, k) == [tok |-> o \o "=" \o ToString(k), o |-> o, v |-> << 48 + k >>]
Fl(o) == [tok |-> o, o |-> o, v |-> << >>]
Tokens ==
    {T("F", s) : s \in {"auto", "raw", "zlib", "gzip", "GZIP", "RawFormat", "deflate"}}
    \cup {T("S", s) : s \in {"default", "huffman-only", "huffman-rle", "fixed", "Fixed", "rle"}}
    \cup {T("C", s) : s \in {"default", "none", "0", "1", "6", "9", "10", "-1", "x"}}
    \cup {T("M", s) : s \in {"default", "1", "9", "10", "-2"}}
    \cup {T("W", s) : s \in {"default", "8", "9", "15", "7", "16"}}
    \cup {Fl(ToString(k)) : k \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}}
    \cup {N("d", k) : k \in 1..4} \cup {N("n", k) : k \in 0..9} \cup {N("m", k) : k \in {1, 2, 3, 5, 6, 8, 9}} \cup {N("t", k) : k \in 0..9}
    \cup {Fl(x) : x \in {"c", "k", "f", "v", "D", "L", "P", "Px", "Py", "dx", "Z"}}
Init == hist = "C" /\ opts = << >>
Next == /\ Len(opts) < MaxOpts
        /\ \E x \in Tokens : hist' = hist \o " " \o x.tok /\ opts' = Append(opts, x) /\ PrintT("G|" \o hist')
Spec == Init /\ [][Next]_<<hist, opts>>
Known == SelectSeq(opts, LAMBDA x : x.o \in DOMAIN TypeOf \/ x.o \in DOMAIN Digit \/ x.o = "d")
Inv == ~Refused(Known) => /\ ConfigInv("writer", CompressCfg(Known)) /\ ConfigInv("reader", DecompressCfg(Known))
                          /\ \A v \in {CompressCfg(Known), DecompressCfg(Known)} :
                               v.f \in Valid.f /\ v.s \in Valid.s /\ v.l \in Valid.l /\ v.m \in Valid.m /\ v.w \in Valid.w
=============================================================================
