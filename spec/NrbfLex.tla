------------------------------ MODULE NrbfLex ------------------------------
(***************************************************************************)
(* The byte level of the .NET Remoting Binary Format: what a record is.    *)
(*                                                                         *)
(* An input is a record [pre, fill, n, suf] standing for the bytes         *)
(* pre \o fill^n \o suf; the run in the middle makes inputs with very long *)
(* strings affordable (fill is an ASCII byte).                             *)
(*                                                                         *)
(* Reading operators return [ok, p, v]: whether the bytes at a position    *)
(* are well formed, the position behind them, and what they mean.  TLC     *)
(* integers have 32 bits, so scalars are kept as little-endian bytes.      *)
(*                                                                         *)
(* A text is its UTF-8 bytes, or <<-1, length, b1, n1, b2, n2, ...>> (runs *)
(* of equal bytes) if it is longer than 96 bytes; the recorder of the real *)
(* code writes texts in the same canonical form.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Bytes(b) == [pre |-> b, fill |-> 0, n |-> 0, suf |-> <<>>]

BLen(B) == Len(B.pre) + B.n + Len(B.suf)

At(B, i) == IF i <= Len(B.pre) THEN B.pre[i]
            ELSE IF i <= Len(B.pre) + B.n THEN B.fill
            ELSE B.suf[i - Len(B.pre) - B.n]

\* The bytes i..j.
Slice(B, i, j) == IF j < i THEN <<>>
                  ELSE IF j <= Len(B.pre) THEN SubSeq(B.pre, i, j)
                  ELSE [k \in 1..(j - i + 1) |-> At(B, i + k - 1)]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

------------------------------------------------------------------------------
(* Results *)

Ok(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
Fail(e)  == [ok |-> FALSE, p |-> 0, v |-> e]
Then(r, Next(_, _)) == IF r.ok THEN Next(r.p, r.v) ELSE r

------------------------------------------------------------------------------
(* UTF-8 (Unicode 15, table 3-7) *)

Cont(b) == b >= 128 /\ b <= 191

\* The length of the well-formed UTF-8 sequence that starts at s[k], or 0.
Utf8Len(s, k) ==
  LET b == s[k]
      more(n) == k + n <= Len(s)
  IN  IF b < 128 THEN 1
      ELSE IF b >= 194 /\ b <= 223 THEN IF more(1) /\ Cont(s[k+1]) THEN 2 ELSE 0
      ELSE IF b >= 224 /\ b <= 239
           THEN IF /\ more(2)
                   /\ Cont(s[k+1]) /\ Cont(s[k+2])
                   /\ (b = 224 => s[k+1] >= 160)
                   /\ (b = 237 => s[k+1] <= 159)
                THEN 3 ELSE 0
      ELSE IF b >= 240 /\ b <= 244
           THEN IF /\ more(3)
                   /\ Cont(s[k+1]) /\ Cont(s[k+2]) /\ Cont(s[k+3])
                   /\ (b = 240 => s[k+1] >= 144)
                   /\ (b = 244 => s[k+1] <= 143)
                THEN 4 ELSE 0
      ELSE 0

RECURSIVE Utf8From(_, _)
Utf8From(s, k) == \/ k > Len(s)
                  \/ LET n == Utf8Len(s, k) IN n > 0 /\ Utf8From(s, k + n)

Utf8(s) == (\A k \in 1..Len(s) : s[k] < 128) \/ Utf8From(s, 1)

\* The scalar value encoded by the n bytes at s[k].
CodePoint(s, k, n) ==
  CASE n = 1 -> s[k]
    [] n = 2 -> (s[k] - 192) * 64 + (s[k+1] - 128)
    [] n = 3 -> (s[k] - 224) * 4096 + (s[k+1] - 128) * 64 + (s[k+2] - 128)
    [] n = 4 -> (s[k] - 240) * 262144 + (s[k+1] - 128) * 4096 + (s[k+2] - 128) * 64 + (s[k+3] - 128)

LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>

------------------------------------------------------------------------------
(* Integers and strings *)

U8(B, p) == IF p <= BLen(B) THEN Ok(p + 1, At(B, p)) ELSE Fail("truncated")

I32(B, p) ==
  IF p + 3 > BLen(B) THEN Fail("truncated")
  ELSE LET hi == At(B, p + 3) IN
       Ok(p + 4, At(B, p) + 256 * At(B, p + 1) + 65536 * At(B, p + 2)
                 + 16777216 * (IF hi >= 128 THEN hi - 256 ELSE hi))

\* IDs must be positive. A message with another one is read on (v is then negated or zero), see Reader.
Length(B, p) == Then(I32(B, p), LAMBDA q, n : IF n < 0 THEN Fail("negative length") ELSE Ok(q, n))

\* 2.1.1.6: up to five groups of 7 bits, the least significant first.
RECURSIVE Varint(_, _, _, _, _)
Varint(B, p, k, acc, scale) ==
  IF p > BLen(B) THEN Fail("truncated")
  ELSE LET b == At(B, p) IN
       IF k = 5 THEN IF b <= 7 THEN Ok(p + 1, acc + b * scale) ELSE Fail("string length")
       ELSE IF b < 128 THEN Ok(p + 1, acc + b * scale)
       ELSE Varint(B, p + 1, k + 1, acc + (b - 128) * scale, IF k = 4 THEN 268435456 ELSE scale * 128)

StringLength(B, p) == Varint(B, p, 1, 0, 1)

AddRun(runs, b, n) ==
  IF n = 0 THEN runs
  ELSE IF runs # <<>> /\ runs[Len(runs) - 1] = b THEN [runs EXCEPT ![Len(runs)] = @ + n]
  ELSE runs \o <<b, n>>

RunsOf(runs, s) == FoldLeft(LAMBDA acc, b : AddRun(acc, b, 1), runs, s)

\* The bytes i..j as a text, in canonical form.
Text(B, i, j) ==
  IF j - i + 1 <= 96 THEN Slice(B, i, j)
  ELSE LET lp == Len(B.pre)
           a == SubSeq(B.pre, i, Min2(j, lp))
           f == Max2(0, Min2(j, lp + B.n) - Max2(i, lp + 1) + 1)
           c == SubSeq(B.suf, Max2(1, i - lp - B.n), j - lp - B.n)
       IN  <<-1, j - i + 1>> \o RunsOf(AddRun(RunsOf(<<>>, a), B.fill, f), c)

TextUtf8(B, i, j) ==
  LET lp == Len(B.pre) IN
  IF B.n = 0 \/ j <= lp \/ i > lp + B.n
  THEN Utf8(Slice(B, i, j))
  ELSE Utf8(SubSeq(B.pre, i, lp)) /\ Utf8(SubSeq(B.suf, 1, j - lp - B.n))

LPS(B, p) ==
  Then(StringLength(B, p), LAMBDA q, n :
    IF n > BLen(B) - q + 1 THEN Fail("truncated")
    ELSE IF ~TextUtf8(B, q, q + n - 1) THEN Fail("not UTF-8")
    ELSE Ok(q + n, Text(B, q, q + n - 1)))

\* The canonical form of a text given as its bytes.
CanonText(s) == IF Len(s) <= 96 THEN s ELSE <<-1, Len(s)>> \o RunsOf(<<>>, s)

------------------------------------------------------------------------------
(* Primitives (2.1.1, 2.1.2.3) *)

PrimName == [x \in {1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18} |->
  CASE x = 1 -> "Boolean" [] x = 2 -> "Byte" [] x = 3 -> "Char" [] x = 5 -> "Decimal" [] x = 6 -> "Double"
    [] x = 7 -> "Int16" [] x = 8 -> "Int32" [] x = 9 -> "Int64" [] x = 10 -> "SByte" [] x = 11 -> "Single"
    [] x = 12 -> "TimeSpan" [] x = 13 -> "DateTime" [] x = 14 -> "UInt16" [] x = 15 -> "UInt32"
    [] x = 16 -> "UInt64" [] x = 17 -> "Null" [] x = 18 -> "String"]

IsPrimCode(x) == x \in DOMAIN PrimName

\* Bytes of a primitive of a fixed width, 0 for the others.
Width(pt) == CASE pt \in {1, 2, 10} -> 1 [] pt \in {7, 14} -> 2 [] pt \in {8, 11, 15} -> 4
               [] pt \in {6, 9, 12, 13, 16} -> 8 [] OTHER -> 0

\* 2.1.1.5: the two most significant bits are the kind, the others the ticks. The fourth kind shows as none.
DateTimeOf(b) ==
  [k |-> "DateTime",
   b |-> [b EXCEPT ![8] = @ % 64],
   z |-> CASE b[8] \div 64 = 1 -> "utc" [] b[8] \div 64 = 2 -> "local" [] b[8] \div 64 = 3 -> "three" [] OTHER -> "none"]

FixedOk(pt, b) == pt = 1 => b[1] \in {0, 1}
FixedVal(pt, b) == IF pt = 13 THEN DateTimeOf(b) ELSE [k |-> PrimName[pt], b |-> b]

IsDigit(b) == b >= 48 /\ b <= 57

(* A decimal text is canonical if it is one that .NET writes and every implementation keeps: at most 28 digits,  *)
(* no superfluous leading zero, not a negative zero. Only such a text must be accepted, unchanged; one with a    *)
(* byte that no number contains must be rejected; what happens with others ("loose") is left open.               *)
DecimalClass(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      body == IF neg THEN Tail(s) ELSE s
      dots == {i \in 1..Len(body) : body[i] = 46}
      ip == IF dots = {} THEN body ELSE SubSeq(body, 1, (CHOOSE i \in dots : TRUE) - 1)
      fp == IF dots = {} THEN <<>> ELSE SubSeq(body, (CHOOSE i \in dots : TRUE) + 1, Len(body))
      alldig(x) == \A i \in 1..Len(x) : IsDigit(x[i])
      zero == \A i \in 1..Len(body) : body[i] \in {46, 48}
  IN  IF s = <<>> THEN "bad"
      ELSE IF \E i \in 1..Len(s) : ~(IsDigit(s[i]) \/ s[i] \in {43, 45, 46, 95, 69, 101}) THEN "bad"
      ELSE IF ~\E i \in 1..Len(s) : IsDigit(s[i]) THEN "bad"
      ELSE IF Cardinality({i \in 1..Len(s) : s[i] = 46}) > 1 THEN "bad"
      ELSE IF /\ Cardinality(dots) <= 1
              /\ Len(ip) >= 1 /\ alldig(ip) /\ (Len(ip) = 1 \/ ip[1] # 48)
              /\ alldig(fp) /\ (dots = {} \/ Len(fp) >= 1)
              /\ Len(ip) + Len(fp) <= 28
              /\ ~(neg /\ zero)
           THEN "canonical"
      ELSE "loose"

\* What is left of the input is too short for one.
Short(pt) == Fail("no whole " \o PrimName[pt])

\* One primitive of type pt at p. A loose decimal has the field `loose`.
Prim(B, p, pt) ==
  IF Width(pt) > 0
  THEN IF Width(pt) > BLen(B) - p + 1 THEN Short(pt)
       ELSE LET b == Slice(B, p, p + Width(pt) - 1) IN
            IF FixedOk(pt, b) THEN Ok(p + Width(pt), FixedVal(pt, b)) ELSE Fail("no value of the type")
  ELSE CASE pt = 3 ->
              IF p > BLen(B) THEN Short(pt)
              ELSE LET s == Slice(B, p, Min2(p + 3, BLen(B)))
                       n == Utf8Len(s, 1)
                   IN  IF n = 0 THEN Fail("no character")
                       ELSE Ok(p + n, [k |-> "Char", b |-> LE4(CodePoint(s, 1, n))])
         [] pt = 5 ->
              Then(LPS(B, p), LAMBDA q, s :
                LET c == IF s # <<>> /\ s[1] = -1 THEN "loose" ELSE DecimalClass(s) IN
                IF c = "bad" THEN Fail("no decimal")
                ELSE Ok(q, IF c = "canonical" THEN [k |-> "Decimal", d |-> s] ELSE [k |-> "Decimal", d |-> s, loose |-> TRUE]))
         [] OTHER -> Fail("no untyped value of this type")

RECURSIVE PrimsRec(_, _, _, _, _)
PrimsRec(B, p, pt, n, acc) ==
  IF n = 0 THEN Ok(p, acc)
  ELSE Then(Prim(B, p, pt), LAMBDA q, v : PrimsRec(B, q, pt, n - 1, Append(acc, v)))

\* n primitives of type pt in a row.
Prims(B, p, pt, n) ==
  LET w == Width(pt) IN
  IF w = 0 THEN PrimsRec(B, p, pt, n, <<>>)
  ELSE IF n > (BLen(B) - p + 1) \div w THEN Short(pt)
  ELSE LET b(i) == Slice(B, p + (i - 1) * w, p + i * w - 1) IN
       IF pt = 1 /\ \E i \in 1..n : ~FixedOk(pt, b(i)) THEN Fail("no value of the type")
       ELSE Ok(p + n * w, [i \in 1..n |-> FixedVal(pt, b(i))])

NullV == [k |-> "Null"]
StringV(s) == [k |-> "String", s |-> s]

\* 2.2.2.1
ValueWithCode(B, p) ==
  Then(U8(B, p), LAMBDA q, pt :
    IF ~IsPrimCode(pt) THEN Fail("primitive type")
    ELSE IF pt = 17 THEN Ok(q, NullV)
    ELSE IF pt = 18 THEN Then(LPS(B, q), LAMBDA q2, s : Ok(q2, StringV(s)))
    ELSE Prim(B, q, pt))

RECURSIVE ValuesRec(_, _, _, _)
ValuesRec(B, p, n, acc) ==
  IF n = 0 THEN Ok(p, acc)
  ELSE Then(ValueWithCode(B, p), LAMBDA q, v : ValuesRec(B, q, n - 1, Append(acc, v)))

\* 2.2.2.3
ArrayOfValueWithCode(B, p) == Then(Length(B, p), LAMBDA q, n : ValuesRec(B, q, n, <<>>))

\* 2.2.2.2
StringValueWithCode(B, p) ==
  Then(U8(B, p), LAMBDA q, pt : IF pt = 18 THEN LPS(B, q) ELSE Fail("string expected"))

------------------------------------------------------------------------------
(* Parts of records *)

RECURSIVE NamesRec(_, _, _, _)
NamesRec(B, p, n, acc) ==
  IF n = 0 THEN Ok(p, acc)
  ELSE Then(LPS(B, p), LAMBDA q, s : NamesRec(B, q, n - 1, Append(acc, s)))

\* 2.3.1.1
ClassInfo(B, p) ==
  Then(I32(B, p), LAMBDA q, id :
    Then(LPS(B, q), LAMBDA q2, name :
      Then(Length(B, q2), LAMBDA q3, n :
        Then(NamesRec(B, q3, n, <<>>), LAMBDA q4, names :
          Ok(q4, [id |-> id, name |-> name, names |-> names])))))

\* The declared type of a member or element (2.1.2.2): b is the BinaryTypeEnumeration, the other fields what goes with it.
Type(b, pt, cn, li) == [b |-> b, pt |-> pt, cn |-> cn, li |-> li]
ObjectType == Type(2, 0, <<>>, 0)
StringType == Type(1, 0, <<>>, 0)
PrimType(pt) == Type(0, pt, <<>>, 0)

TypeExtra(B, p, b) ==
  CASE b \in {0, 7} -> Then(U8(B, p), LAMBDA q, pt : IF IsPrimCode(pt) THEN Ok(q, Type(b, pt, <<>>, 0)) ELSE Fail("primitive type"))
    [] b = 3 -> Then(LPS(B, p), LAMBDA q, s : Ok(q, Type(b, 0, s, 0)))
    [] b = 4 -> Then(LPS(B, p), LAMBDA q, s : Then(I32(B, q), LAMBDA q2, li : Ok(q2, Type(b, 0, s, li))))
    [] OTHER -> Ok(p, Type(b, 0, <<>>, 0))

RECURSIVE ExtrasRec(_, _, _, _)
ExtrasRec(B, p, codes, acc) ==
  IF codes = <<>> THEN Ok(p, acc)
  ELSE Then(TypeExtra(B, p, Head(codes)), LAMBDA q, t : ExtrasRec(B, q, Tail(codes), Append(acc, t)))

\* 2.3.1.2: all type codes, then all additional infos.
MemberTypes(B, p, n) ==
  IF n > BLen(B) - p + 1 THEN Fail("truncated")
  ELSE LET codes == Slice(B, p, p + n - 1) IN
       IF \E i \in 1..n : codes[i] > 7 THEN Fail("binary type")
       ELSE ExtrasRec(B, p + n, codes, <<>>)

RECURSIVE IntsRec(_, _, _, _)
IntsRec(B, p, n, acc) ==
  IF n = 0 THEN Ok(p, acc)
  ELSE Then(I32(B, p), LAMBDA q, v : IF v < 0 THEN Fail("negative length") ELSE IntsRec(B, q, n - 1, Append(acc, v)))

------------------------------------------------------------------------------
(* Message flags (2.2.1.1), as bits of the 32-bit field *)

Bit(n, w) == (n \div w) % 2
\* TLC's \div rounds towards minus infinity, so this is right for negative numbers as well.
FlagNoArgs == 1
FlagArgsInline == 2
FlagArgsIsArray == 4
FlagArgsInArray == 8
FlagNoContext == 16
FlagContextInline == 32
FlagContextInArray == 64
FlagSignatureInArray == 128
FlagPropertiesInArray == 256
FlagNoReturn == 512
FlagReturnVoid == 1024
FlagReturnInline == 2048
FlagReturnInArray == 4096
FlagExceptionInArray == 8192
FlagGeneric == 32768

Has(n, w) == Bit(n, w) = 1
ArgBits(n) == Bit(n, 1) + Bit(n, 2) + Bit(n, 4) + Bit(n, 8)
ContextBits(n) == Bit(n, 16) + Bit(n, 32) + Bit(n, 64)
ReturnBits(n) == Bit(n, 512) + Bit(n, 1024) + Bit(n, 2048) + Bit(n, 4096)

FlagsOk(n) ==
  /\ ArgBits(n) <= 1 /\ ContextBits(n) <= 1 /\ ReturnBits(n) <= 1
  /\ ~(ArgBits(n) > 0 /\ Has(n, FlagExceptionInArray))
  /\ ~(ReturnBits(n) > 0 /\ Has(n, FlagExceptionInArray))
  /\ ~(ReturnBits(n) > 0 /\ Has(n, FlagSignatureInArray))
  /\ ~(Has(n, FlagExceptionInArray) /\ Has(n, FlagSignatureInArray))

------------------------------------------------------------------------------
(* Records. A token is a record with a field t, its name. *)

HeaderRecord(B) ==
  Then(U8(B, 1), LAMBDA q0, t :
    IF t # 0 THEN Fail("no header")
    ELSE Then(I32(B, q0), LAMBDA q, root :
      Then(I32(B, q), LAMBDA q2, hid :
        Then(I32(B, q2), LAMBDA q3, major :
          Then(I32(B, q3), LAMBDA q4, minor :
            Ok(q4, [t |-> "Header", root |-> root, major |-> major, minor |-> minor]))))))

Optional(c, B, p, Read(_, _)) ==
  IF c THEN Then(Read(B, p), LAMBDA q, v : Ok(q, <<v>>)) ELSE Ok(p, <<>>)

MethodCallRecord(B, p) ==
  Then(I32(B, p), LAMBDA q, fl :
    Then(StringValueWithCode(B, q), LAMBDA q2, name :
      Then(StringValueWithCode(B, q2), LAMBDA q3, type :
        Then(Optional(Has(fl, FlagContextInline), B, q3, StringValueWithCode), LAMBDA q4, ctx :
          Then(Optional(Has(fl, FlagArgsInline), B, q4, ArrayOfValueWithCode), LAMBDA q5, args :
            Ok(q5, [t |-> "MethodCall", fl |-> fl, name |-> name, type |-> type, ctx |-> ctx, args |-> args, ret |-> <<>>]))))))

MethodReturnRecord(B, p) ==
  Then(I32(B, p), LAMBDA q, fl :
    Then(Optional(Has(fl, FlagReturnInline), B, q, ValueWithCode), LAMBDA q2, ret :
      Then(Optional(Has(fl, FlagContextInline), B, q2, StringValueWithCode), LAMBDA q4, ctx :
        Then(Optional(Has(fl, FlagArgsInline), B, q4, ArrayOfValueWithCode), LAMBDA q5, args :
          Ok(q5, [t |-> "MethodReturn", fl |-> fl, name |-> <<>>, type |-> <<>>, ctx |-> ctx, args |-> args, ret |-> ret])))))

ClassRecord(B, p, t) ==
  Then(ClassInfo(B, p), LAMBDA q, ci :
    Then(IF t \in {4, 5} THEN MemberTypes(B, q, Len(ci.names)) ELSE Ok(q, [i \in 1..Len(ci.names) |-> ObjectType]), LAMBDA q2, ty :
      Then(IF t \in {3, 5} THEN I32(B, q2) ELSE Ok(q2, 0), LAMBDA q3, li :
        Ok(q3, [t |-> "Class", rt |-> t, id |-> ci.id, name |-> ci.name, names |-> ci.names, ty |-> ty,
                sys |-> (t \in {2, 4}), li |-> li]))))

ArrayRecord(id, n, lens, ty) == [t |-> "Array", id |-> id, n |-> n, lens |-> lens, ty |-> ty, rt |-> 0]

BigCount == 2000000000
\* The number of elements, BigCount if it is more than anything the model builds.
Product(lens) == FoldLeft(LAMBDA a, b : IF a = 0 \/ b = 0 THEN 0
                                        ELSE IF a = BigCount \/ a > 70000 \div b THEN BigCount ELSE a * b, 1, lens)
\* A zero length anywhere makes the product zero, even behind a big one.
Count(lens) == IF \E i \in 1..Len(lens) : lens[i] = 0 THEN 0 ELSE Product(lens)

BinaryArrayRecord(B, p) ==
  Then(I32(B, p), LAMBDA q, id :
    Then(U8(B, q), LAMBDA q2, at :
      IF at > 5 THEN Fail("array kind")
      ELSE Then(Length(B, q2), LAMBDA q3, rank :
        IF rank = 0 THEN Fail("rank")
        ELSE Then(IntsRec(B, q3, rank, <<>>), LAMBDA q4, lens :
          Then(IF at >= 3 THEN IntsRec(B, q4, rank, <<>>) ELSE Ok(q4, <<>>), LAMBDA q5, lows :
            Then(U8(B, q5), LAMBDA q6, b :
              IF b > 7 THEN Fail("binary type")
              ELSE Then(TypeExtra(B, q6, b), LAMBDA q7, ty :
                Ok(q7, [ArrayRecord(id, Count(lens), lens, ty) EXCEPT !.rt = 7]))))))))

SingleArrayRecord(B, p, rt) ==
  Then(I32(B, p), LAMBDA q, id :
    Then(Length(B, q), LAMBDA q2, n :
      LET mk(ty) == [ArrayRecord(id, IF n > 70000 THEN BigCount ELSE n, <<n>>, ty) EXCEPT !.rt = rt] IN
      CASE rt = 15 -> Then(U8(B, q2), LAMBDA q3, pt : IF IsPrimCode(pt) THEN Ok(q3, mk(PrimType(pt))) ELSE Fail("primitive type"))
        [] rt = 16 -> Ok(q2, mk(ObjectType))
        [] rt = 17 -> Ok(q2, mk(StringType))))

\* The record at p, whatever comes first.
RecordAt(B, p) ==
  Then(U8(B, p), LAMBDA q, t :
    CASE t = 1 -> Then(I32(B, q), LAMBDA q2, id : Then(I32(B, q2), LAMBDA q3, m : Ok(q3, [t |-> "ClassWithId", id |-> id, meta |-> m])))
      [] t \in 2..5 -> ClassRecord(B, q, t)
      [] t = 6 -> Then(I32(B, q), LAMBDA q2, id : Then(LPS(B, q2), LAMBDA q3, s : Ok(q3, [t |-> "String", id |-> id, s |-> s])))
      [] t = 7 -> BinaryArrayRecord(B, q)
      [] t = 8 -> Then(U8(B, q), LAMBDA q2, pt : IF IsPrimCode(pt)
                                                 THEN Then(Prim(B, q2, pt), LAMBDA q3, v : Ok(q3, [t |-> "PrimTyped", v |-> v]))
                                                 ELSE Fail("primitive type"))
      [] t = 9 -> Then(I32(B, q), LAMBDA q2, id : Ok(q2, [t |-> "Ref", id |-> id]))
      [] t = 10 -> Ok(q, [t |-> "Nulls", n |-> 1])
      [] t = 11 -> Ok(q, [t |-> "End"])
      [] t = 12 -> Then(I32(B, q), LAMBDA q2, id : Then(LPS(B, q2), LAMBDA q3, s : Ok(q3, [t |-> "Library", id |-> id, s |-> s])))
      [] t = 13 -> Then(U8(B, q), LAMBDA q2, n : Ok(q2, [t |-> "Nulls", n |-> n]))
      [] t = 14 -> Then(I32(B, q), LAMBDA q2, n : Ok(q2, [t |-> "Nulls", n |-> n]))
      [] t \in 15..17 -> SingleArrayRecord(B, q, t)
      [] t = 21 -> MethodCallRecord(B, q)
      [] t = 22 -> MethodReturnRecord(B, q)
      [] OTHER -> Fail("record type"))
==============================================================================
