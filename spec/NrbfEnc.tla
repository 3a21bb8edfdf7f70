------------------------------ MODULE NrbfEnc ------------------------------
(***************************************************************************)
(* Records as bytes, for the behaviours that TLC generates. EncInverse     *)
(* (an assumption that TLC checks whenever it runs NrbfMC) says that       *)
(* NrbfLex reads back what is written here, and stops where it ends.       *)
(***************************************************************************)
EXTENDS NrbfLex

RECURSIVE VarintE(_)
VarintE(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o VarintE(n \div 128)
LpsE(s) == VarintE(Len(s)) \o s

Cat(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, seqs)

HeaderE(root, hid, major, minor) == <<0>> \o LE4(root) \o LE4(hid) \o LE4(major) \o LE4(minor)
H(root) == HeaderE(root, -1, 1, 0)

TypeCodesE(ty) == [i \in 1..Len(ty) |-> ty[i].b]
TypeExtraE(t) == CASE t.b \in {0, 7} -> <<t.pt>> [] t.b = 3 -> LpsE(t.cn) [] t.b = 4 -> LpsE(t.cn) \o LE4(t.li) [] OTHER -> <<>>
TypesE(ty) == TypeCodesE(ty) \o Cat([i \in 1..Len(ty) |-> TypeExtraE(ty[i])])
ClassInfoE(id, name, names) == LE4(id) \o LpsE(name) \o LE4(Len(names)) \o Cat([i \in 1..Len(names) |-> LpsE(names[i])])

ClassWithIdE(id, meta) == <<1>> \o LE4(id) \o LE4(meta)
SysE(id, name, names) == <<2>> \o ClassInfoE(id, name, names)
ClsE(id, name, names, li) == <<3>> \o ClassInfoE(id, name, names) \o LE4(li)
SysTE(id, name, names, ty) == <<4>> \o ClassInfoE(id, name, names) \o TypesE(ty)
ClsTE(id, name, names, ty, li) == <<5>> \o ClassInfoE(id, name, names) \o TypesE(ty) \o LE4(li)
StrE(id, s) == <<6>> \o LE4(id) \o LpsE(s)
BinArrayE(id, kind, lens, lows, ty) ==
  <<7>> \o LE4(id) \o <<kind>> \o LE4(Len(lens)) \o Cat([i \in 1..Len(lens) |-> LE4(lens[i])])
        \o Cat([i \in 1..Len(lows) |-> LE4(lows[i])]) \o <<ty.b>> \o TypeExtraE(ty)
PrimTypedE(pt, payload) == <<8, pt>> \o payload
RefE(id) == <<9>> \o LE4(id)
NullE == <<10>>
EndE == <<11>>
LibE(id, s) == <<12>> \o LE4(id) \o LpsE(s)
Nulls8E(n) == <<13, n>>
NullsE(n) == <<14>> \o LE4(n)
ArrPrimE(id, n, pt) == <<15>> \o LE4(id) \o LE4(n) \o <<pt>>
ArrObjE(id, n) == <<16>> \o LE4(id) \o LE4(n)
ArrStrE(id, n) == <<17>> \o LE4(id) \o LE4(n)

StringCodeE(s) == <<18>> \o LpsE(s)
ValuesE(vs) == LE4(Len(vs)) \o Cat(vs)
\* vs and ret are encoded ValueWithCode; ctx, args and ret are <<>> or a sequence of one.
OptE(o, E(_)) == IF o = <<>> THEN <<>> ELSE E(o[1])
CallE(fl, name, type, ctx, args) ==
  <<21>> \o LE4(fl) \o StringCodeE(name) \o StringCodeE(type) \o OptE(ctx, StringCodeE) \o OptE(args, ValuesE)
ReturnE(fl, ret, ctx, args) ==
  <<22>> \o LE4(fl) \o OptE(ret, LAMBDA x : x) \o OptE(ctx, StringCodeE) \o OptE(args, ValuesE)

\* The smallest value of a primitive type.
ZeroE(pt) == IF pt = 3 THEN <<97>> ELSE IF pt = 5 THEN <<1, 48>> ELSE [i \in 1..Width(pt) |-> 0]

------------------------------------------------------------------------------
(* Reading is the inverse of writing *)

ReadsAs(e, tok) == \A tail \in {<<>>, <<0, 11>>} :
  LET B == Bytes(e \o tail) IN RecordAt(B, 1) = [ok |-> TRUE, p |-> Len(e) + 1, v |-> tok]

EncIds == {-2147483647 - 1, -1, 0, 1, 255, 256, 65536, 2147483647}
EncTexts == {<<>>, <<65>>, <<195, 169>>, [i \in 1..127 |-> 97], [i \in 1..128 |-> 98], [i \in 1..16384 |-> 99]}
EncTypes == {PrimType(2), PrimType(8), StringType, ObjectType, Type(3, 0, <<83>>, 0), Type(4, 0, <<67>>, 7), Type(5, 0, <<>>, 0), Type(6, 0, <<>>, 0), Type(7, 9, <<>>, 0)}
EncMembers == {<<>>, <<<<97>>>>, <<<<98>>, <<>>, <<97>>>>}
ClassTok(rt, id, name, names, ty, li) ==
  [t |-> "Class", rt |-> rt, id |-> id, name |-> name, names |-> names, ty |-> ty, sys |-> (rt \in {2, 4}), li |-> li]
Untyped(names) == [i \in 1..Len(names) |-> ObjectType]

EncInverse ==
  /\ \A id \in EncIds :
       /\ \A m \in EncIds : ReadsAs(ClassWithIdE(id, m), [t |-> "ClassWithId", id |-> id, meta |-> m])
       /\ ReadsAs(RefE(id), [t |-> "Ref", id |-> id])
       /\ ReadsAs(NullsE(id), [t |-> "Nulls", n |-> id])
       /\ \A s \in EncTexts : /\ ReadsAs(StrE(id, s), [t |-> "String", id |-> id, s |-> CanonText(s)])
                             /\ ReadsAs(LibE(id, s), [t |-> "Library", id |-> id, s |-> CanonText(s)])
       /\ \A names \in EncMembers :
            /\ ReadsAs(SysE(id, <<65>>, names), ClassTok(2, id, <<65>>, names, Untyped(names), 0))
            /\ ReadsAs(ClsE(1, <<66>>, names, id), ClassTok(3, 1, <<66>>, names, Untyped(names), id))
       /\ ReadsAs(ArrObjE(id, 3), [ArrayRecord(id, 3, <<3>>, ObjectType) EXCEPT !.rt = 16])
       /\ ReadsAs(ArrStrE(id, 300), [ArrayRecord(id, 300, <<300>>, StringType) EXCEPT !.rt = 17])
  /\ \A n \in {0, 1, 255} : ReadsAs(Nulls8E(n), [t |-> "Nulls", n |-> n])
  /\ ReadsAs(NullE, [t |-> "Nulls", n |-> 1])
  /\ ReadsAs(EndE, [t |-> "End"])
  /\ \A pt \in DOMAIN PrimName : IsPrimCode(pt) => ReadsAs(ArrPrimE(5, 2, pt), [ArrayRecord(5, 2, <<2>>, PrimType(pt)) EXCEPT !.rt = 15])
  /\ \A t1, t2 \in EncTypes :
       /\ ReadsAs(SysTE(3, <<65>>, <<<<97>>, <<98>>>>, <<t1, t2>>), ClassTok(4, 3, <<65>>, <<<<97>>, <<98>>>>, <<t1, t2>>, 0))
       /\ ReadsAs(ClsTE(3, <<65>>, <<<<97>>, <<98>>>>, <<t1, t2>>, 4), ClassTok(5, 3, <<65>>, <<<<97>>, <<98>>>>, <<t1, t2>>, 4))
  /\ \A ty \in EncTypes, kind \in 0..5, lens \in {<<0>>, <<3>>, <<2, 3>>, <<4, 1, 2>>} :
       ReadsAs(BinArrayE(9, kind, lens, IF kind >= 3 THEN [i \in 1..Len(lens) |-> i] ELSE <<>>, ty),
               [ArrayRecord(9, Count(lens), lens, ty) EXCEPT !.rt = 7])
ASSUME EncInverse
==============================================================================
