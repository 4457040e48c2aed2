------------------------------- MODULE ConfigGen -------------------------------
(***************************************************************************)
(* All histories of New and Reset calls with few options, checked against  *)
(* ConfigInv and printed ("G|..." lines) for replay into the real code.    *)
(***************************************************************************)
EXTENDS Config, TLC
CONSTANTS MaxEpochs, MaxOpts, PerEpoch
VARIABLES hist, wcfg, rcfg, n, m
Options == {<<"f", v>> : v \in 0..3} \cup {<<"s", v>> : v \in 0..3} \cup {<<"l", v>> : v \in {-1, 0, 1, 9}}
           \cup {<<"m", v>> : v \in {0, 1, 9}} \cup {<<"w", v>> : v \in {0, 8, 15}}
           \cup {<<"d", v>> : v \in 0..2} \cup {<<"t", v>> : v \in 0..2}
Init == hist = "N" /\ n = 0 /\ m = 0 /\ wcfg = << New("writer", << >>), Unset >> /\ rcfg = << New("reader", << >>), Unset >>
\* the second component of wcfg, rcfg: what the options so far are applied to
Opt == /\ n < MaxOpts /\ m % 10 < PerEpoch
       /\ \E o \in Options :
            /\ hist' = hist \o " " \o o[1] \o ToString(o[2])
            /\ LET w == Set(wcfg[2], o)  r == Set(rcfg[2], o) IN
               /\ wcfg' = << Defaults("writer", w), w >> /\ rcfg' = << Defaults("reader", r), r >>
       /\ n' = n + 1 /\ m' = m + 1
Epoch == /\ m \div 10 < MaxEpochs - 1
         /\ hist' = hist \o " R"
         /\ wcfg' = << wcfg[1], wcfg[1] >> /\ rcfg' = << rcfg[1], rcfg[1] >>
         /\ m' = (m \div 10) * 10 + 10 /\ UNCHANGED n
Next == (Opt \/ Epoch) /\ PrintT("G|" \o hist')
Spec == Init /\ [][Next]_<<hist, wcfg, rcfg, n, m>>
Inv == ConfigInv("writer", wcfg[1]) /\ ConfigInv("reader", rcfg[1])
=============================================================================
