------------------------------- MODULE Wide -------------------------------
(* TLC integers are 32 bits wide; file sizes, offsets and times are pairs   *)
(* <<hi, lo>> standing for hi * 2^20 + lo with 0 <= lo < 2^20.              *)
EXTENDS Integers, Sequences
WB == 1048576
W(n) == <<n \div WB, n % WB>>
W0 == <<0, 0>>
WAdd(a, b) == LET s == a[2] + b[2] IN <<a[1] + b[1] + (s \div WB), s % WB>>
WSub(a, b) == LET s == a[2] - b[2] IN <<a[1] - b[1] + (s \div WB), s % WB>>
WLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WLe(a, b) == ~ WLt(b, a)
WNeg(a) == a[1] < 0
WMax(a, b) == IF WLt(a, b) THEN b ELSE a
WMin(a, b) == IF WLt(a, b) THEN a ELSE b
\* the smaller of a wide value and an int, as an int; 0 if the wide value is negative
WClip(w, n) == IF WNeg(w) THEN 0 ELSE IF WLt(w, W(n)) THEN w[1] * WB + w[2] ELSE n
\* a wide value known to fit
WInt(w) == w[1] * WB + w[2]
===========================================================================
