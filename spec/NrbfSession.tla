---------------------------- MODULE NrbfSession ----------------------------
(***************************************************************************)
(* Many calls, of several threads and of builds with different features    *)
(* (C22).  The specification of a session has no state that a call could   *)
(* leave behind: every call gives what its bytes alone give, which is what *)
(* the reader of NrbfTrace has been found to give for them (Reference).    *)
(*                                                                         *)
(* A recorded session is a sequence of events, one per call and in the     *)
(* order in which the calls returned.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Session == ndJsonDeserialize(IOEnv.NRBF_SESSION)
\* Line 1: threads and calls that each of them makes; outcomes (numbers) by input. Then the events.
Threads == Session[1].threads
Calls == Session[1].calls
Reference == Session[1].reference
Event(n) == Session[n + 1]
Last == Len(Session) - 1

VARIABLES n,        \* events so far
          made,     \* calls made by each thread
          deviates  \* calls that gave something else
vars == <<n, made, deviates>>

Init == n = 0 /\ made = [t \in 1..Threads |-> 0] /\ deviates = 0

Return(t) == /\ n < Last
             /\ Event(n + 1)[1] = t
             /\ n' = n + 1
             /\ made' = [made EXCEPT ![t] = @ + 1]

\* The call of thread t returns what its input alone determines.
Agree(t) == Return(t) /\ Event(n + 1)[3] = Reference[Event(n + 1)[2]] /\ UNCHANGED deviates

\* It does not.
Deviate(t) == /\ Return(t) /\ Event(n + 1)[3] # Reference[Event(n + 1)[2]]
              /\ deviates' = deviates + 1
              /\ PrintT("@D " \o ToJson([n |-> n + 1]))

Next == \E t \in 1..Threads : Agree(t) \/ Deviate(t)

NoDeviation == deviates = 0
MadeOk == \A t \in 1..Threads : made[t] <= Calls
\* Checked by the driver from the last state: every thread has made all its calls.
Complete == n = Last => PrintT("@C " \o ToJson([made |-> made, deviates |-> deviates]))
==============================================================================
