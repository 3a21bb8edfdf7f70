------------------------------- MODULE NrbfWhy -------------------------------
(***************************************************************************)
(* What the error of a failed deserialization says (C25): the value that   *)
(* it calls unexpected, the length, the name of a member or of a class     *)
(* must be those of the message, and what it says was taken must be what   *)
(* the target takes.                                                       *)
(*                                                                         *)
(* A claim is a record with the field k (see harness/src/why.rs).          *)
(***************************************************************************)
EXTENDS NrbfMenu

RECURSIVE Parts(_), Takes(_), Fields(_)

\* A value and all that is in it.
Parts(v) ==
  <<v>> \o (CASE v.k = "Array" -> FoldLeft(LAMBDA a, e : a \o Parts(e), <<>>, v.v)
              [] v.k = "Object" -> FoldLeft(LAMBDA a, e : a \o Parts(e[2]), <<>>, v.m)
              [] OTHER -> <<>>)

\* How many elements or entries the parts of a target take that do not take all.
Takes(T) ==
  CASE T.t = "tup" -> {Len(T.es)} \cup UNION {Takes(T.es[j]) : j \in 1..Len(T.es)}
    [] T.t \in {"struct", "strict", "default", "flat"} -> {Len(T.fs)} \cup UNION {Takes(T.fs[j][2]) : j \in 1..Len(T.fs)}
    [] T.t \in {"seqhead", "maphead"} -> {1}
    [] T.t \in {"opt", "vec", "map", "mapchar"} -> Takes(T.e)
    [] OTHER -> {}

\* The names of the members that the parts of a target want, and those parts that take no others.
Fields(T) ==
  CASE T.t \in {"struct", "strict", "default", "flat"} ->
         UNION {Fields(T.fs[j][2]) : j \in 1..Len(T.fs)} \cup {[strict |-> T.t = "strict", names |-> {T.fs[j][1] : j \in 1..Len(T.fs)}]}
    [] T.t = "tup" -> UNION {Fields(T.es[j]) : j \in 1..Len(T.es)}
    [] T.t \in {"opt", "vec", "map", "mapchar"} -> Fields(T.e)
    [] OTHER -> {}

InSystem(v) == v.k = "Object" /\ v.l = <<>>
ClassOf(v) == CutTick(Expand(v.c))
IsBox(v) == InSystem(v) /\ Boxed(ClassOf(v)).t # "none"
IsList(v) == InSystem(v) /\ ClassOf(v) = nList
WellFormedBox(v) == Len(v.m) = 1 /\ v.m[1][1] = nmValue
ListItems(v) == Member(v.m, nItems)[1].v
ListSize(v) == Member(v.m, nSize)[1].b
WellFormedList(v) == /\ Len(v.m) = 3
                     /\ LET it == Member(v.m, nItems)
                            sz == Member(v.m, nSize)
                            ve == Member(v.m, nVersion)
                        IN  it # <<>> /\ sz # <<>> /\ ve # <<>> /\ it[1].k = "Array" /\ sz[1].k = "Int32" /\ ve[1].k = "Int32"

\* A number of elements, in the eight bytes of a claim.
Length8(n) == LE4(n) \o <<0, 0, 0, 0>>
Size8(b) == SubSeq(Extend(b, TRUE), 1, 8)

NaN4(b) == b[4] % 128 = 127 /\ b[3] >= 128 /\ (b[3] % 128) + b[2] + b[1] > 0
NaN8(b) == b[8] % 128 = 127 /\ b[7] >= 240 /\ (b[7] % 16) + b[6] + b[5] + b[4] + b[3] + b[2] + b[1] > 0

\* Is u what a part of the message shows?
Shows(v, u) ==
  LET plain == v.k \notin {"Array", "Object"}
      x == IF plain THEN Visit(v) ELSE [k |-> "none"]
      names == IF v.k = "Object" THEN {v.m[j][1] : j \in 1..Len(v.m)} ELSE {}
  IN  CASE u.k = "bool" -> x.k = "bool" /\ x.b = u.b
        [] u.k = "int" -> x.k = "int" /\ x.b = u.b
        [] u.k = "float" -> \/ x.k = "f32" /\ (IF u.nan THEN NaN4(x.b) ELSE x.b = u.b4)
                            \/ x.k = "f64" /\ (IF u.nan THEN NaN8(x.b) ELSE x.b = u.b8)
                            \* A box of another number, which serde converts.
                            \/ IsBox(v) /\ Visit(v).k = "open"
        [] u.k = "char" -> x.k = "char" /\ x.b = u.b
        \* A character is shown as a text to those who do not know characters.
        [] u.k = "str" -> \/ x.k = "str" /\ x.s = u.s
                          \/ x.k = "char" /\ Utf8Enc(x.b[1] + 256 * x.b[2] + 65536 * x.b[3]) = u.s
                          \/ u.s \in names
        [] u.k = "unit" -> x.k = "unit"
        [] u.k = "seq" -> v.k = "Array" \/ (IsList(v) /\ WellFormedList(v))
        [] u.k = "map" -> v.k = "Object" /\ ~(IsBox(v) /\ WellFormedBox(v)) /\ ~IsList(v)
        [] OTHER -> FALSE

HasLength(v, c, T) ==
  CASE c.in = "array" -> v.k = "Array" /\ Length8(Len(v.v)) = c.n /\ c.x < Len(v.v) /\ c.x \in Takes(T)
    [] c.in = "map" -> v.k = "Object" /\ Length8(Len(v.m)) = c.n /\ c.x < Len(v.m) /\ c.x \in Takes(T)
    [] c.in = "list" -> /\ IsList(v) /\ WellFormedList(v)
                        /\ Size8(ListSize(v)) = c.n
                        /\ Small(ListSize(v)) < 0 \/ c.x < Small(ListSize(v))
                        /\ c.x = Len(ListItems(v)) \/ (c.x \in Takes(T) /\ c.x < Len(ListItems(v)))
    \* The target's own: it wants more than there are.
    [] OTHER -> \/ v.k = "Array" /\ Length8(Len(v.v)) = c.n /\ \E x \in Takes(T) : Len(v.v) < x
                \/ /\ IsList(v) /\ WellFormedList(v)
                   /\ LET n == IF Small(ListSize(v)) \in 0..Len(ListItems(v)) THEN Small(ListSize(v)) ELSE Len(ListItems(v))
                      IN  Length8(n) = c.n /\ \E x \in Takes(T) : n < x

\* Is the claim c true of the parsed value and the target?
TrueOf(c, T, val) ==
  LET ps == Parts(val) IN
  CASE c.k = "unexpected" -> \E j \in 1..Len(ps) : Shows(ps[j], c.u)
    [] c.k = "length" -> \E j \in 1..Len(ps) : HasLength(ps[j], c, T)
    [] c.k = "missing" -> \E f \in Fields(T) : c.s \in f.names /\ \E j \in 1..Len(ps) : ps[j].k = "Object" /\ Member(ps[j].m, c.s) = <<>>
    [] c.k = "unknown" -> \E f \in Fields(T) : f.strict /\ c.s \notin f.names /\ \E j \in 1..Len(ps) : ps[j].k = "Object" /\ Member(ps[j].m, c.s) # <<>>
    [] c.k = "system class" -> \E j \in 1..Len(ps) : IsList(ps[j]) /\ ~WellFormedList(ps[j]) /\ Expand(c.s) \in {ClassOf(ps[j]), Expand(ps[j].c)}
    \* A value has each member once.
    [] c.k \in {"duplicate", "parsing"} -> FALSE
    \* A text that claims nothing.
    [] OTHER -> TRUE

\* The claim about a message whose parse result is res.
WhyOf(c, T, res) ==
  IF res.r # "ok" THEN c.k = "parsing" /\ c.same
  ELSE IF res.v.k = "MethodCall" THEN c.k = "unexpected" /\ c.u.k = "call"
  ELSE IF res.v.k = "MethodReturn" THEN c.k = "unexpected" /\ c.u.k = "return"
  ELSE TrueOf(c, T, res.v.val)
==============================================================================
