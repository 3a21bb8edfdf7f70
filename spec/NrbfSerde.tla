----------------------------- MODULE NrbfSerde -----------------------------
(***************************************************************************)
(* The serde data model of a parsed message: what from_slice::<T> gives    *)
(* for a target type T.                                                    *)
(*                                                                         *)
(* A target is a shape [t |-> name, ...]:                                  *)
(*   int [n bytes, sg signed], f32, f64, bool, char, string (owned),       *)
(*   str (borrowed), unit, any (keeps whatever it is given), ignored,      *)
(*   opt [e], vec [e], tup [es], map [e], struct [fs: name, shape];        *)
(*   strict (a struct that denies other members), default (a struct whose  *)
(*   missing members are ds), flat (a struct that keeps the other members),*)
(*   untagged (i64, text, sequence, map or unit), mapchar (keys are        *)
(*   characters), bytes (borrowed), seqhead and maphead (ask for one       *)
(*   element only), seqpast (asks again after the end)                     *)
(* The result is [r |-> "ok", v], [r |-> "err"], or [r |-> "open"] where   *)
(* serde converts between floats (or an integer to a float) by its own     *)
(* rules, which are not this library's.                                    *)
(***************************************************************************)
EXTENDS NrbfLex

DOk(v) == [r |-> "ok", v |-> v]
DErr == [r |-> "err"]
DOpen == [r |-> "open"]

\* A text's bytes (texts over 96 bytes are stored as runs).
Expand(t) ==
  IF t = <<>> \/ t[1] # -1 THEN t
  ELSE LET k == (Len(t) - 2) \div 2 IN
       FoldLeft(LAMBDA a, j : a \o [x \in 1..t[2 * j + 2] |-> t[2 * j + 1]], <<>>, [j \in 1..k |-> j])

CutTick(s) == LET at == {j \in 1..Len(s) : s[j] = 96} IN
              IF at = {} THEN s ELSE SubSeq(s, 1, (CHOOSE j \in at : \A k \in at : j <= k) - 1)

Utf8Enc(c) == IF c < 128 THEN <<c>>
              ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
              ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
              ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Extend(b, signed) ==
  b \o [j \in 1..(16 - Len(b)) |-> IF signed /\ b[Len(b)] >= 128 THEN 255 ELSE 0]

Fits(b, n, signed) ==
  IF n >= 16 THEN signed \/ b[16] < 128
  ELSE IF signed THEN \A j \in (n + 1)..16 : b[j] = (IF b[n] >= 128 THEN 255 ELSE 0)
  ELSE \A j \in (n + 1)..16 : b[j] = 0

IntV(b) == [k |-> "int", b |-> b]

DateTimeRaw(v) == [v.b EXCEPT ![8] = @ + (CASE v.z = "utc" -> 64 [] v.z = "local" -> 128 [] v.z = "three" -> 192 [] OTHER -> 0)]

\* ASCII codes of the class and member names that mean something.
nSystem == <<83, 121, 115, 116, 101, 109, 46>>
nBoolean == nSystem \o <<66, 111, 111, 108, 101, 97, 110>>
nByte == nSystem \o <<66, 121, 116, 101>>
nSByte == nSystem \o <<83, 66, 121, 116, 101>>
nChar == nSystem \o <<67, 104, 97, 114>>
nDouble == nSystem \o <<68, 111, 117, 98, 108, 101>>
nSingle == nSystem \o <<83, 105, 110, 103, 108, 101>>
nInt == <<73, 110, 116>>
nInt16 == nSystem \o nInt \o <<49, 54>>
nInt32 == nSystem \o nInt \o <<51, 50>>
nInt64 == nSystem \o nInt \o <<54, 52>>
nUInt16 == nSystem \o <<85>> \o nInt \o <<49, 54>>
nUInt32 == nSystem \o <<85>> \o nInt \o <<51, 50>>
nUInt64 == nSystem \o <<85>> \o nInt \o <<54, 52>>
nList == nSystem \o <<67, 111, 108, 108, 101, 99, 116, 105, 111, 110, 115, 46, 71, 101, 110, 101, 114, 105, 99, 46, 76, 105, 115, 116>>
nmValue == <<109, 95, 118, 97, 108, 117, 101>>
nItems == <<95, 105, 116, 101, 109, 115>>
nSize == <<95, 115, 105, 122, 101>>
nVersion == <<95, 118, 101, 114, 115, 105, 111, 110>>

IntT(n, signed) == [t |-> "int", n |-> n, sg |-> signed]

\* The type boxed by a system class, or "none".
Boxed(c) == CASE c = nBoolean -> [t |-> "bool"] [] c = nChar -> [t |-> "char"]
              [] c = nDouble -> [t |-> "f64"] [] c = nSingle -> [t |-> "f32"]
              [] c = nByte -> IntT(1, FALSE) [] c = nSByte -> IntT(1, TRUE)
              [] c = nInt16 -> IntT(2, TRUE) [] c = nUInt16 -> IntT(2, FALSE)
              [] c = nInt32 -> IntT(4, TRUE) [] c = nUInt32 -> IntT(4, FALSE)
              [] c = nInt64 -> IntT(8, TRUE) [] c = nUInt64 -> IntT(8, FALSE)
              [] OTHER -> [t |-> "none"]

Member(m, name) == LET at == {j \in 1..Len(m) : m[j][1] = name} IN
                   IF at = {} THEN <<>> ELSE <<m[CHOOSE j \in at : TRUE][2]>>

\* All results ok: their values; otherwise what decides.
Gather(rs, Mk(_)) ==
  IF \E j \in 1..Len(rs) : rs[j].r = "err" THEN DErr
  ELSE IF \E j \in 1..Len(rs) : rs[j].r = "open" THEN DOpen
  ELSE DOk(Mk([j \in 1..Len(rs) |-> rs[j].v]))

SeqV(vs) == [k |-> "seq", v |-> vs]
UnitV == [k |-> "unit"]

\* An Int32 in 4 bytes, as a number.
Small(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (IF b[4] >= 128 THEN b[4] - 256 ELSE b[4])

RECURSIVE De(_, _), Visit(_)

(* What a value shows to a visitor: a scalar of the data model, a sequence or a map; or an error. *)
Visit(v) ==
  CASE v.k = "Boolean" -> [k |-> "bool", b |-> v.b]
    [] v.k \in {"Byte", "UInt16", "UInt32", "UInt64"} -> IntV(Extend(v.b, FALSE))
    [] v.k \in {"SByte", "Int16", "Int32", "Int64", "TimeSpan"} -> IntV(Extend(v.b, TRUE))
    [] v.k = "DateTime" -> IntV(Extend(DateTimeRaw(v), TRUE))
    [] v.k = "Char" -> [k |-> "char", b |-> v.b]
    [] v.k = "Single" -> [k |-> "f32", b |-> v.b]
    [] v.k = "Double" -> [k |-> "f64", b |-> v.b]
    [] v.k = "Decimal" -> [k |-> "str", s |-> v.d, borrowed |-> FALSE]
    [] v.k = "String" -> [k |-> "str", s |-> v.s, borrowed |-> TRUE]
    [] v.k = "Null" -> UnitV
    [] v.k = "Array" -> [k |-> "elements", v |-> v.v]
    [] v.k = "Object" ->
         IF v.l # <<>> THEN [k |-> "members", m |-> v.m]
         ELSE LET c == CutTick(Expand(v.c))
                  box == Boxed(c)
              IN  IF box.t # "none"
                  THEN IF Len(v.m) = 1 /\ v.m[1][1] = nmValue
                       THEN LET d == De(box, v.m[1][2]) IN
                            IF d.r = "ok" THEN d.v ELSE [k |-> d.r]
                       ELSE [k |-> "err"]
                  ELSE IF c = nList
                  THEN LET it == Member(v.m, nItems)
                           sz == Member(v.m, nSize)
                           ve == Member(v.m, nVersion)
                       IN  IF /\ Len(v.m) = 3
                              /\ it # <<>> /\ sz # <<>> /\ ve # <<>>
                              /\ it[1].k = "Array" /\ sz[1].k = "Int32" /\ ve[1].k = "Int32"
                           THEN LET n == Small(sz[1].b) IN
                                IF n >= 0 /\ n <= Len(it[1].v) THEN [k |-> "elements", v |-> SubSeq(it[1].v, 1, n)]
                                ELSE [k |-> "err"]
                           ELSE [k |-> "err"]
                  ELSE [k |-> "members", m |-> v.m]

\* A struct from the members of an object, whatever its class.
StructOf(T, m) ==
  LET fields == [j \in 1..Len(T.fs) |->
                   LET x == Member(m, T.fs[j][1]) IN
                   IF x # <<>> THEN De(T.fs[j][2], x[1])
                   ELSE IF T.t = "default" THEN DOk(T.ds[j])
                   ELSE IF T.fs[j][2].t = "opt" THEN DOk([k |-> "none"]) ELSE DErr]
      others == SelectSeq(m, LAMBDA e : ~\E j \in 1..Len(T.fs) : T.fs[j][1] = e[1])
      ignored == [j \in 1..Len(others) |-> De([t |-> "ignored"], others[j][2])]
  IN  IF T.t = "strict" /\ others # <<>> THEN DErr ELSE
      Gather(fields \o ignored, LAMBDA vs : [k |-> "map", m |-> [j \in 1..Len(T.fs) |-> <<T.fs[j][1], vs[j]>>]])

De(T, v) ==
  IF T.t = "opt"
  THEN IF v.k = "Null" THEN DOk([k |-> "none"])
       ELSE LET d == De(T.e, v) IN IF d.r = "ok" THEN DOk([k |-> "some", e |-> d.v]) ELSE d
  ELSE IF T.t \in {"struct", "strict", "default"} /\ v.k = "Object" THEN StructOf(T, v.m)
  ELSE LET x == Visit(v) IN
       IF x.k = "err" THEN DErr
       ELSE IF x.k = "open" THEN DOpen
       ELSE CASE T.t = "int" -> IF x.k = "int" /\ Fits(x.b, T.n, T.sg) THEN DOk(x) ELSE DErr
              [] T.t \in {"f32", "f64"} -> IF x.k = T.t THEN DOk(x) ELSE IF x.k \in {"f32", "f64", "int"} THEN DOpen ELSE DErr
              [] T.t = "bool" -> IF x.k = "bool" THEN DOk(x) ELSE DErr
              [] T.t = "char" -> IF x.k = "char" THEN DOk(x)
                                 ELSE IF x.k = "str" /\ x.s # <<>> /\ x.s[1] # -1 /\ Utf8Len(x.s, 1) = Len(x.s)
                                 THEN DOk([k |-> "char", b |-> LE4(CodePoint(x.s, 1, Len(x.s)))])
                                 ELSE DErr
              [] T.t = "string" -> IF x.k = "str" THEN DOk([k |-> "str", s |-> x.s])
                                   ELSE IF x.k = "char" THEN DOk([k |-> "str", s |-> Utf8Enc(x.b[1] + 256 * x.b[2] + 65536 * x.b[3])])
                                   ELSE DErr
              [] T.t = "str" -> IF x.k = "str" /\ x.borrowed THEN DOk([k |-> "str", s |-> x.s]) ELSE DErr
              [] T.t = "bytes" -> IF x.k = "str" /\ x.borrowed THEN DOk([k |-> "bytes", s |-> x.s]) ELSE DErr
              [] T.t = "untagged" -> IF x.k = "int" /\ ~Fits(x.b, 8, TRUE) THEN DErr
                                     ELSE IF x.k \in {"int", "str", "elements", "members", "unit"} THEN De([t |-> "any"], v) ELSE DErr
              [] T.t = "seqpast" -> IF x.k = "elements" THEN De([t |-> "any"], v) ELSE DErr
              [] T.t = "seqhead" -> IF x.k = "elements" /\ Len(x.v) <= 1 THEN De([t |-> "any"], v) ELSE DErr
              [] T.t = "maphead" -> IF x.k = "members" /\ Len(x.m) <= 1 THEN De([t |-> "any"], v) ELSE DErr
              [] T.t = "flat" ->
                   IF x.k # "members" THEN DErr
                   ELSE LET a == Member(x.m, T.fs[1][1])
                            others == SelectSeq(x.m, LAMBDA e : e[1] # T.fs[1][1])
                        IN  IF a = <<>> THEN DErr
                            ELSE Gather(<<De(T.fs[1][2], a[1])>> \o [j \in 1..Len(others) |-> De([t |-> "any"], others[j][2])],
                                        LAMBDA vs : [k |-> "flat", a |-> vs[1], o |-> [k |-> "map", m |-> [j \in 1..Len(others) |-> <<others[j][1], vs[j + 1]>>]]])
              [] T.t = "mapchar" ->
                   IF x.k = "members" /\ \A j \in 1..Len(x.m) : LET s == x.m[j][1] IN s # <<>> /\ s[1] # -1 /\ Utf8Len(s, 1) = Len(s)
                   THEN De([t |-> "map", e |-> T.e], v) ELSE DErr
              [] T.t = "unit" -> IF x.k = "unit" THEN DOk(UnitV) ELSE DErr
              [] T.t \in {"any", "ignored"} ->
                   LET mk(y) == IF T.t = "any" THEN y ELSE UnitV IN
                   (CASE x.k = "elements" -> Gather([j \in 1..Len(x.v) |-> De(T, x.v[j])], LAMBDA vs : mk(SeqV(vs)))
                      [] x.k = "members" -> Gather([j \in 1..Len(x.m) |-> De(T, x.m[j][2])],
                                                   LAMBDA vs : mk([k |-> "map", m |-> [j \in 1..Len(vs) |-> <<x.m[j][1], vs[j]>>]]))
                      [] x.k = "str" -> DOk(mk([k |-> "str", s |-> x.s]))
                      [] OTHER -> DOk(mk(x)))
              [] T.t = "vec" -> IF x.k = "elements" THEN Gather([j \in 1..Len(x.v) |-> De(T.e, x.v[j])], SeqV) ELSE DErr
              [] T.t = "tup" -> IF x.k = "elements" /\ Len(x.v) = Len(T.es)
                                THEN Gather([j \in 1..Len(x.v) |-> De(T.es[j], x.v[j])], SeqV) ELSE DErr
              [] T.t = "map" -> IF x.k = "members"
                                THEN Gather([j \in 1..Len(x.m) |-> De(T.e, x.m[j][2])],
                                            LAMBDA vs : [k |-> "map", m |-> [j \in 1..Len(vs) |-> <<x.m[j][1], vs[j]>>]])
                                ELSE DErr
              [] T.t = "default" -> IF x.k = "elements" /\ Len(x.v) <= Len(T.fs)
                                   THEN Gather([j \in 1..Len(x.v) |-> De(T.fs[j][2], x.v[j])],
                                               LAMBDA vs : [k |-> "map", m |-> [j \in 1..Len(T.fs) |-> <<T.fs[j][1], IF j <= Len(vs) THEN vs[j] ELSE T.ds[j]>>]])
                                   ELSE DErr
              [] T.t \in {"struct", "strict"} -> IF x.k = "elements" /\ Len(x.v) = Len(T.fs)
                                   THEN Gather([j \in 1..Len(x.v) |-> De(T.fs[j][2], x.v[j])],
                                               LAMBDA vs : [k |-> "map", m |-> [j \in 1..Len(vs) |-> <<T.fs[j][1], vs[j]>>]])
                                   ELSE DErr

\* from_slice on a message whose parse result is res.
FromSlice(T, res) ==
  IF res.r # "ok" THEN DErr
  ELSE IF res.v.k # "Value" THEN DErr
  ELSE De(T, res.v.val)
==============================================================================
