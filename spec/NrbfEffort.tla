----------------------------- MODULE NrbfEffort -----------------------------
(***************************************************************************)
(* Messages that grow in one dimension (C23).                              *)
(*                                                                         *)
(* A series is a kind of message with what calls on it gave and took, for  *)
(* growing sizes n: <<n, bytes, outcome, values, us, KiB, lengths>>.       *)
(* The first three are small and NrbfTrace has judged their outcome; the   *)
(* outcome of the others follows from them, because the number of values   *)
(* is affine in n; or it is an array of the given lengths and each of its  *)
(* rows is an array, down to its elements.                                 *)
(***************************************************************************)
EXTENDS NrbfCost, Sequences, TLC, Json, IOUtils

Series == ndJsonDeserialize(IOEnv.NRBF_SERIES)

VARIABLES i, \* the series
          k, \* points passed
          wrong
vars == <<i, k, wrong>>

P(j) == Series[i].pts[j]
Init == i \in 1..Len(Series) /\ k = 0 /\ wrong = 0

\* Values of an array of these lengths, for each value that contains it or would.
RECURSIVE Shaped(_, _)
Shaped(lens, rows) == IF lens = <<>> THEN rows ELSE rows + Shaped(Tail(lens), rows * Head(lens))

\* Values that a point must have, by the first two points.
Slope == (P(2)[4] - P(1)[4]) \div (P(2)[1] - P(1)[1])
ValuesAt(pt) == IF pt[7] # <<>> THEN Shaped(pt[7], 1) ELSE P(1)[4] + Slope * (pt[1] - P(1)[1])

\* A small member of the series.
Small == k < 3 /\ P(k + 1)[4] = ValuesAt(P(k + 1))

Expected(pt) == pt[3] = P(1)[3] /\ pt[4] = ValuesAt(pt)

Grow == /\ k < Len(Series[i].pts)
        /\ k' = k + 1
        /\ i' = i
Keeps == /\ Grow
         /\ Small \/ (Expected(P(k + 1)) /\ Affordable(P(k + 1)[2] + P(k + 1)[4], P(k + 1)[5], P(k + 1)[6]))
         /\ wrong' = wrong
Breaks == /\ Grow
          /\ ~(Small \/ (Expected(P(k + 1)) /\ Affordable(P(k + 1)[2] + P(k + 1)[4], P(k + 1)[5], P(k + 1)[6])))
          /\ wrong' = wrong + 1
          /\ PrintT("@D " \o ToJson([i |-> i, k |-> k + 1, expected |-> ValuesAt(P(k + 1))]))

Next == Keeps \/ Breaks
Done == k = Len(Series[i].pts) => PrintT("@C " \o ToJson([i |-> i, wrong |-> wrong]))
==============================================================================
