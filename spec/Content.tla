------------------------------ MODULE Content ------------------------------
(* What the bytes of a regular file are.                                     *)
(* A file is a sequence of segments: k = "d" (a slice of a synthetic stream) *)
(* or "z" (zeros).  Byte o of stream s is defined here arithmetically; the   *)
(* image writer uses the same definition, so this module is the oracle for   *)
(* file content.                                                             *)
EXTENDS Wide
StreamByte(s, o) ==
  LET k == o \div 4
      d0 == k % 255
      d1 == (k \div 255) % 255
      d2 == (k \div 65025) % 255
  IN CASE o % 4 = 0 -> 1 + ((d0 + 7 * s) % 255)
       [] o % 4 = 1 -> 1 + ((d1 + 3 * d0 + 31 * s) % 255)
       [] o % 4 = 2 -> 1 + ((d2 + 5 * d0 + 13 * s) % 255)
       [] o % 4 = 3 -> 1 + ((3 * s + 11 * d0 + 17 * d1) % 255)
RawMax == 8
\* The pieces of [pos, pos+n) of a segment list, in the vocabulary of observations:
\* <<"z", len>>, <<"d", stream, offset, len>>, or <<"r", bytes>> when shorter than RawMax
Piece(g, pos, end) ==
  LET a == WMax(g.at, pos)
      b == WMin(WAdd(g.at, g.len), end)
      len == WInt(WSub(b, a))
      off == g.off + (IF g.k = "d" THEN WInt(WSub(a, g.at)) ELSE 0)
  IN IF g.k = "z" THEN <<"z", len>>
     ELSE IF len < RawMax THEN <<"r", [i \in 1..len |-> StreamByte(g.s, off + i - 1)]>>
     ELSE <<"d", g.s, off, len>>
Pieces(segs, pos, n) ==
  IF n = 0 THEN <<>>
  ELSE LET end == WAdd(pos, W(n))
           ix == { i \in 1..Len(segs) : WLt(segs[i].at, end) /\ WLt(pos, WAdd(segs[i].at, segs[i].len)) }
           lo == IF ix = {} THEN 1 ELSE CHOOSE i \in ix : \A j \in ix : i <= j
           hi == IF ix = {} THEN 0 ELSE CHOOSE i \in ix : \A j \in ix : i >= j
       IN [i \in 1..(hi - lo + 1) |-> Piece(segs[lo + i - 1], pos, end)]
============================================================================
