----------------------------- MODULE NrbfTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded run of the real reader must be a       *)
(* behaviour of the specification.                                         *)
(*                                                                         *)
(* A line of the corpus is an input with the recorded outcomes of one or   *)
(* more public calls on it: q is a sequence of <<mode, outcome>>, where    *)
(* mode is "parse", "prefixes" (the lengths of the proper prefixes that    *)
(* parse accepted), "extensions" (how many extensions it accepted), "cost" *)
(* (what it took), "error" (what the error says), the name of a target     *)
(* type for from_slice, or that with "why_" in front (what its error       *)
(* says).                                                                  *)
(*                                                                         *)
(* Each line is an initial state; every record read is one step of the     *)
(* action named after it; the last state judges the recorded outcomes.     *)
(***************************************************************************)
EXTENDS NrbfErrors, NrbfWhy, NrbfCost, Json, IOUtils

Corpus == ndJsonDeserialize(IOEnv.NRBF_CORPUS)

VARIABLES i,      \* line of the corpus
          s,      \* the reader
          tok,    \* what comes next in the input
          seen,   \* names of the actions taken
          verdict \* of each call, once done
vars == <<i, s, tok, seen, verdict>>

\* The input of a line: its bytes, or the three parts if it has a long run.
Input(n) == LET b == Corpus[n].b IN
            IF "f" \in DOMAIN Corpus[n] THEN [pre |-> b, fill |-> Corpus[n].f[1], n |-> Corpus[n].f[2], suf |-> Corpus[n].s]
            ELSE Bytes(b)

Init == /\ i \in 1..Len(Corpus)
        /\ s = Init0("asis", Input(i))
        /\ tok = NextToken(s, Input(i))
        /\ seen = {}
        /\ verdict = <<>>

Step(name) == /\ tok.t = name
              /\ s' = Apply(s, tok, Input(i))
              /\ tok' = NextToken(s', Input(i))
              /\ seen' = seen \cup {name}
              /\ UNCHANGED <<i, verdict>>

ReadHeader == Step("Header")
ReadClass == Step("Class")
ReadClassWithId == Step("ClassWithId")
ReadArray == Step("Array")
ReadString == Step("String")
ReadReference == Step("Ref")
ReadNulls == Step("Nulls")
ReadTypedPrimitive == Step("PrimTyped")
ReadUntypedPrimitives == Step("Prims")
ReadLibrary == Step("Library")
ReadMethodCall == Step("MethodCall")
ReadMethodReturn == Step("MethodReturn")
ReadEnd == Step("End")
ReadMalformed == Step("Malformed")

------------------------------------------------------------------------------
(* Judging *)

IsWhy(mode) == Len(mode) > 4 /\ SubSeq(mode, 1, 4) = "why_"
TargetOf(mode) == Menu[SubSeq(mode, 5, Len(mode))]

\* What the specification expects of a call when the reader's result is res.
Expected(mode, res) ==
  CASE mode = "parse" -> PlainResult(res)
    [] mode = "cost" -> [r |-> res.r, n |-> SizeResult(res)]
    [] mode = "error" -> [r |-> res.r]
    [] mode \in {"prefixes", "extensions"} -> [r |-> "ok", v |-> <<>>]
    [] IsWhy(mode) -> LET d == FromSlice(TargetOf(mode), res) IN [r |-> d.r]
    [] OTHER -> FromSlice(Menu[mode], res)

Same(o, e) == IF e.r = "open" THEN o.r \in {"ok", "err"}
              \* A value nested deeper than the JSON reader can go is recorded as "deep" only.
              ELSE o.r = e.r /\ (o.r = "ok" /\ "deep" \notin DOMAIN o => o.v = e.v)

\* What a call may take (C23): o.v is <<values, microseconds, bytes>>.
Cost(n, st, id, o) ==
  LET units == BLen(Input(n)) + st.work IN
  IF ~Affordable(units, o.v[2], o.v[3]) THEN "MISMATCH"
  ELSE IF st.loose \/ id.loose THEN "loose"
  ELSE IF o.r = st.res.r /\ o.v[1] = SizeResult(st.res) THEN "match-" \o o.r
  ELSE IF o.r = id.res.r /\ o.v[1] = SizeResult(id.res) THEN "ideal"
  ELSE "MISMATCH"

JudgeAll(n, st) ==
  LET q == Corpus[n].q
      may == MayDiffer(st)
      id == IF may THEN Run("ideal", Input(n)) ELSE st
      differ == may /\ (st.res.r # id.res.r \/ (st.res.r = "ok" /\ st.res.v # id.res.v))
      one(mode, o) ==
        LET e == Expected(mode, st.res) IN
        IF st.huge THEN "huge"
        ELSE IF o.r \notin {"ok", "err"} THEN "CRASH"
        ELSE IF mode = "cost" THEN Cost(n, st, id, o)
        ELSE IF st.loose \/ id.loose THEN "loose"
        ELSE IF mode = "error" THEN IF o.r = "ok" THEN "accepted" ELSE IF TruthOf(o.v, st) THEN "true" ELSE "MISMATCH"
        ELSE IF IsWhy(mode)
        THEN IF o.r = "ok" THEN "accepted"
             ELSE IF WhyOf(o.v, TargetOf(mode), st.res) THEN IF o.v.k = "other" THEN "no claim" ELSE "true"
             ELSE IF differ /\ WhyOf(o.v, TargetOf(mode), id.res) THEN "ideal"
             ELSE "MISMATCH"
        ELSE IF e.r = "open" THEN "open"
        ELSE IF Same(o, e)
        THEN IF differ THEN IF st.res.r = "ok" THEN "known-wrong" ELSE "known-reject"
             ELSE IF st.res.r = "ok" THEN IF e.r = "err" THEN "match-deerr" ELSE "match-ok" ELSE "match-err"
        ELSE IF differ /\ Same(o, Expected(mode, id.res)) THEN "ideal"
        ELSE "MISMATCH"
  IN  [j \in 1..Len(q) |-> one(q[j][1], q[j][2])]

\* What to show for a mismatch.
Explain(n, st, vs) ==
  \A j \in 1..Len(vs) :
    vs[j] \in {"MISMATCH", "CRASH"} =>
      PrintT("@X " \o ToJson([i |-> n, j |-> j, v |-> vs[j], why |-> st.bad, bads |-> st.bads, expected |-> Expected(Corpus[n].q[j][1], st.res)]))

Finish == /\ s.ph = "done" /\ verdict = <<>>
          /\ verdict' = JudgeAll(i, s)
          /\ PrintT("@V " \o ToJson([i |-> i, v |-> verdict', w |-> s.bad, a |-> seen]))
          /\ Explain(i, s, verdict')
          /\ UNCHANGED <<i, s, tok, seen>>

Next == \/ ReadHeader \/ ReadClass \/ ReadClassWithId \/ ReadArray \/ ReadString \/ ReadReference
        \/ ReadNulls \/ ReadTypedPrimitive \/ ReadUntypedPrimitives \/ ReadLibrary
        \/ ReadMethodCall \/ ReadMethodReturn \/ ReadEnd \/ ReadMalformed \/ Finish

Spec == Init /\ [][Next]_vars
==============================================================================
