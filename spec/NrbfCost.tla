------------------------------ MODULE NrbfCost ------------------------------
(* What a call may take for an input of so many bytes and elements (C23): a constant, and so much for each of them. *)
EXTENDS Integers

BaseTime == 500000   \* microseconds
UnitTime == 1
BaseMemory == 16384   \* KiB
UnitMemory == 1

\* units: bytes of the input and members and elements in it; us: microseconds; kib: the most KiB that were allocated at once.
Affordable(units, us, kib) == /\ us <= BaseTime + UnitTime * units
                              /\ kib <= BaseMemory + UnitMemory * units
==============================================================================
