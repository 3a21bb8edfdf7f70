------------------------------- MODULE NrbfMC -------------------------------
(***************************************************************************)
(* All behaviours of the reader on the messages that an environment writes *)
(* record by record.                                                       *)
(*                                                                         *)
(* The environment chooses the next record from the alphabet of a family,  *)
(* by the place it is for: a record on its own, a member or element, or    *)
(* the record that a reference waits for.  A state is the bytes written so *)
(* far and the reader that has read them.  The environment may stop after  *)
(* every record; the message is then completed in a fixed way (Close), so  *)
(* that every reachable prefix gives a whole message: a valid one, or one  *)
(* that is wrong in the place where the environment broke a rule.          *)
(*                                                                         *)
(* Every completed message is printed with the outcome of the reader as it *)
(* is and of the ideal one; the driver replays all of them into the real   *)
(* code and compares.                                                      *)
(***************************************************************************)
EXTENDS NrbfReader, NrbfEnc, Json

CONSTANTS Family,      \* which alphabet
          MaxRecords,  \* records that the environment chooses
          Grace        \* records it may still choose after breaking a rule

VARIABLES b,     \* the bytes written so far
          s,     \* the reader
          k,     \* records chosen
          late,  \* records chosen after a rule was broken
          done   \* the message is complete
vars == <<b, s, k, late, done>>

------------------------------------------------------------------------------
(* Names and types *)

nA == <<65>>
nB == <<66>>
nC == <<67>>
nD == <<68>>
nS == <<83>>
nT == <<84>>
na == <<97>>
nb == <<98>>
nc == <<99>>
nL == <<76>>
nM == <<77>>

SysTy(name) == Type(3, 0, name, 0)
ClsTy(name, li) == Type(4, 0, name, li)
ObjArrTy == Type(5, 0, <<>>, 0)
StrArrTy == Type(6, 0, <<>>, 0)
PrimArrTy(pt) == Type(7, pt, <<>>, 0)

Max31 == 2147483647
Min31 == -Max31 - 1

\* A payload that tells the position of the value in its record.
Payload(pt, n) ==
  CASE pt = 1 -> <<n % 2>>
    [] pt = 3 -> <<97 + (n % 20)>>
    [] pt = 5 -> <<1, 48 + (n % 10)>>
    [] OTHER -> [i \in 1..Width(pt) |-> IF i = 1 THEN (n * 37) % 256 ELSE IF i = Width(pt) THEN 16 + (n % 100) ELSE 0]

Ids == {1, 2, 3}

\* An array of references to all that is there, so that nothing in a walk stays unseen. Arrays come first, for arguments.
GatherE(st) ==
  LET arrs == {x \in DOMAIN st.objs : st.objs[x].k = "Array"}
      seq == SetToSeq(arrs) \o SetToSeq(DOMAIN st.objs \ arrs)
  IN  ArrObjE(st.root, Len(seq)) \o Cat([i \in 1..Len(seq) |-> RefE(seq[i])])

------------------------------------------------------------------------------
(* Alphabets *)

Pick(family, top, member, wait) ==
  CASE Place(s) = "top" -> top [] Place(s) = "member" -> member [] Place(s) = "wait" -> wait

\* References: objects, arrays and strings that name each other, in every order (C10, C13, C17).
RefsL ==
  Pick("refs",
    {SysE(i, nA, <<>>) : i \in Ids} \cup {SysE(i, nA, <<na, nb>>) : i \in Ids} \cup {StrE(i, <<115, i>>) : i \in Ids}
      \cup {ArrObjE(i, 1) : i \in Ids} \cup {EndE},
    {RefE(i) : i \in Ids \cup {9}} \cup {StrE(i, <<116, i>>) : i \in Ids} \cup {SysE(i, nB, <<na>>) : i \in Ids} \cup {NullE},
    {SysE(i, nC, <<na>>) : i \in Ids} \cup {StrE(i, <<117, i>>) : i \in Ids} \cup {ArrObjE(i, 1) : i \in Ids})

\* Class metadata and ClassWithId (C06, C07).
MetaL ==
  Pick("meta",
    {LibE(1, nL), EndE, StrE(3, nS)}
      \cup {SysE(i, nA, <<na>>) : i \in Ids} \cup {ClsE(i, nB, <<na, nb>>, 1) : i \in Ids}
      \cup {SysTE(i, nA, <<nb, na>>, <<PrimType(8), StringType>>) : i \in Ids}
      \cup {ClsTE(i, nC, <<na, nc>>, <<ObjectType, PrimType(2)>>, 1) : i \in Ids}
      \cup {ClassWithIdE(i, m) : i \in Ids, m \in Ids \cup {9}},
    {ClassWithIdE(i, m) : i \in Ids, m \in Ids \cup {9}} \cup {SysTE(i, nD, <<nb>>, <<PrimType(7)>>) : i \in {2, 3}}
      \cup {RefE(2), NullE, LibE(1, nL)},
    {ClassWithIdE(i, m) : i \in Ids, m \in Ids} \cup {SysTE(i, nD, <<nb>>, <<PrimType(7)>>) : i \in {2, 3}} \cup {LibE(1, nL)})

\* Libraries (C08).
LibIds == {-1, 0, 1, 2}
LibsL ==
  Pick("libs",
    {LibE(i, n) : i \in LibIds, n \in {nL, nM}}
      \cup {ClsE(i, nA, <<na>>, l) : i \in {1, 2}, l \in LibIds}
      \cup {ClsTE(1, nA, <<na, nb>>, <<ClsTy(nB, l), ObjectType>>, m) : l \in LibIds, m \in {1, 2}}
      \cup {SysTE(1, nA, <<na>>, <<ClsTy(nB, l)>>) : l \in LibIds}
      \cup {BinArrayE(1, 0, <<2>>, <<>>, ClsTy(nB, l)) : l \in LibIds}
      \cup {SysE(2, nA, <<na>>), StrE(3, nS), ArrObjE(3, 1), EndE},
    {LibE(i, n) : i \in {1, 2}, n \in {nL, nM}} \cup {ClsE(i, nB, <<>>, l) : i \in {3, 4}, l \in LibIds}
      \cup {ClsTE(3, nB, <<na>>, <<ClsTy(nB, l)>>, l) : l \in {1, 2}}
      \cup {SysE(3, nB, <<>>), NullE, RefE(5), StrE(6, nS), PrimTypedE(2, <<5>>)},
    {LibE(i, n) : i \in {1, 2}, n \in {nM}} \cup {ClsE(5, nB, <<>>, l) : l \in LibIds} \cup {StrE(5, nS), SysE(5, nB, <<>>)})

\* Every declared type against every kind of record, in every kind of container (C09).
AllTypes == {PrimType(pt) : pt \in DOMAIN PrimName} \cup {StringType, ObjectType, SysTy(nS), SysTy(nT), ClsTy(nC, 1), ClsTy(nS, 1), ClsTy(nC, 2), ClsTy(nC, 4),
             ObjArrTy, StrArrTy, PrimArrTy(8), PrimArrTy(17)}
AllRecords(i) ==
  {ClassWithIdE(i, 2), ClassWithIdE(i, 3), ClassWithIdE(i, 6), SysE(i, nS \o nS, <<>>), ClsE(i, nC \o nC, <<>>, 1), ClsE(i, nC, <<>>, 4), SysE(i, <<115>>, <<>>), SysE(i, <<>>, <<>>), SysE(i, nS, <<>>), SysE(i, nT, <<na>>), ClsE(i, nC, <<>>, 1), ClsE(i, nS, <<>>, 1), ClsE(i, nC, <<>>, 2),
   SysTE(i, nS, <<na>>, <<PrimType(2)>>), ClsTE(i, nC, <<na>>, <<PrimType(2)>>, 1), StrE(i, nS), StrE(i, <<>>),
   BinArrayE(i, 0, <<1>>, <<>>, PrimType(2)), RefE(i), RefE(2), NullE, Nulls8E(1), NullsE(1), EndE, LibE(2, nL), LibE(3, nM),
   ArrPrimE(i, 1, 2), ArrPrimE(i, 0, 17), ArrObjE(i, 0), ArrStrE(i, 0), H(1), CallE(1, nA, nB, <<>>, <<>>), ReturnE(513, <<>>, <<>>, <<>>),
   <<18>> \o LpsE(nS), <<19>>, <<20>>, <<23>>, <<255>>, <<>>}
  \cup {PrimTypedE(pt, Payload(pt, 5)) : pt \in DOMAIN PrimName \ {17, 18}} \cup {PrimTypedE(pt, <<>>) : pt \in {0, 4, 17, 18, 19}}
TypesL ==
  Pick("types",
    IF k = 0 THEN {LibE(1, nL) \o SysE(2, nS, <<>>) \o ClsE(3, nC, <<>>, 1) \o LibE(4, nL \o nL) \o ClsE(6, nC, <<>>, 4)}
    ELSE IF k = 1 THEN {SysTE(1, nA, <<na>>, <<t>>) : t \in AllTypes} \cup {ClsTE(1, nA, <<nb, na>>, <<PrimType(7), t>>, 1) : t \in AllTypes}
              \cup {BinArrayE(1, 0, <<2>>, <<>>, t) : t \in AllTypes} \cup {SysE(1, nA, <<na>>), ArrObjE(1, 1), ArrStrE(1, 1)}
    ELSE {EndE},
    IF PrimHere(s) THEN {Cat([i \in 1..Left(Top(s)) |-> Payload(TypeHere(s).pt, i)])} ELSE AllRecords(5),
    AllRecords(5))

\* Runs of nulls (C11).
NullsL ==
  Pick("nulls",
    {ArrObjE(1, n) : n \in {-1, 0, 1, 2, 3, 4}} \cup {ArrStrE(1, n) : n \in {0, 1, 3}}
      \cup {BinArrayE(1, 0, <<3>>, <<>>, t) : t \in {ObjectType, StringType, SysTy(nS), ObjArrTy, StrArrTy, PrimArrTy(8)}}
      \cup {BinArrayE(1, 2, <<2, 2>>, <<>>, t) : t \in {ObjectType, StringType}}
      \cup {SysE(1, nA, <<na, nb>>), SysTE(1, nA, <<na, nb>>, <<StringType, ObjectType>>)},
    {NullE} \cup {Nulls8E(n) : n \in {0, 1, 2, 3, 4, 5, 255}} \cup {NullsE(n) : n \in {-1, 0, 1, 2, 3, 4, 5, Max31, Min31}}
      \cup {StrE(7, nS), RefE(9)},
    {})

\* Shapes of arrays (C12, C11).
Lens1 == {<<n>> : n \in {-1, 0, 1, 2, 3}}
LensBig == {<<70>>, <<130>>, <<255>>, <<256>>, <<257>>, <<300>>}
Lens2 == {<<m, n>> : m, n \in {0, 1, 2, 3}} \cup {<<-1, 2>>, <<2, -1>>, <<5, 7>>, <<17, 16>>}
Lens3 == {<<l, m, n>> : l, m, n \in {1, 2, 3}} \cup {<<0, 2, 2>>, <<2, 0, 2>>, <<2, 2, 0>>, <<2, 3, 5>>}
Lens4 == {<<2, 1, 2, 3>>, <<1, 2, 3, 2>>, <<2, 2, 2, 2>>, <<2, 1, 1, 2, 2>>}
ArraysL ==
  Pick("arrays",
    IF k > 0 THEN {EndE} ELSE
    {BinArrayE(1, a, l, [i \in 1..Len(l) |-> i - 1], t) : a \in {3, 4, 5}, l \in Lens1 \cup Lens2 \cup Lens3 \cup Lens4, t \in {PrimType(2), ObjectType}}
      \cup {BinArrayE(1, a, l, <<>>, t) : a \in {0, 1, 2}, l \in Lens1 \cup Lens2 \cup Lens3 \cup Lens4, t \in {PrimType(2), ObjectType}}
      \cup {BinArrayE(1, a, l, [i \in 1..Len(l) |-> 7], t) : a \in {3, 5}, l \in LensBig, t \in {PrimType(8), ObjectType, StringType}}
      \cup {BinArrayE(1, a, l, <<>>, t) : a \in {0, 2}, l \in LensBig, t \in {PrimType(8), ObjectType, StringType}}
      \cup {BinArrayE(1, 2, <<2, 2>>, <<>>, t) : t \in AllTypes \ {ClsTy(nC, 1), ClsTy(nS, 1), ClsTy(nC, 2), ClsTy(nC, 4)}}
      \cup {BinArrayE(1, a, <<2>>, <<l>>, PrimType(8)) : a \in {3, 4, 5}, l \in {-1, 0, 1, 2, Max31, Min31}}
      \cup {BinArrayE(1, 5, <<2, 2>>, <<l, m>>, ObjectType) : l, m \in {-1, 0, 3, Max31}}
      \cup {BinArrayE(1, a, <<>>, <<>>, PrimType(2)) : a \in 0..5}
      \cup {BinArrayE(1, a, <<1>>, <<>>, PrimType(2)) : a \in {6, 7, 255}}
      \cup {BinArrayE(1, 0, <<1>>, <<>>, Type(t, 0, <<>>, 0)) : t \in {0, 8, 9, 255}}
      \cup {<<7>> \o LE4(1) \o <<0>> \o LE4(r) \o LE4(1) \o LE4(1) \o <<0, 2>> : r \in {-1, 0, 1, 2, 3, Max31}}
      \cup {ArrPrimE(1, n, pt) : n \in {-1, 0, 1, 2, 3, 255, 256, 257}, pt \in DOMAIN PrimName \cup {0, 4, 19}}
      \cup {ArrObjE(1, n) : n \in {-1, 0, 1, 2, 3, 255, 256, 257}} \cup {ArrStrE(1, n) : n \in {-1, 0, 1, 2, 3, 255, 256, 257}},
    {}, {})

\* IDs of all records that have one (C13).
OddIds == {-1, 0, 1, 2, Max31}
WithId(i) ==
  {SysE(i, nA, <<>>), SysTE(i, nA, <<na>>, <<PrimType(2)>>), ClsE(i, nB, <<>>, 1), ClsTE(i, nB, <<na>>, <<ObjectType>>, 1), ClassWithIdE(i, 90), StrE(i, nS),
   BinArrayE(i, 0, <<1>>, <<>>, StringType), ArrPrimE(i, 1, 2), ArrObjE(i, 1), ArrStrE(i, 0)}
IdsL ==
  Pick("ids",
    IF k = 0 THEN {LibE(1, nL) \o SysE(90, nC, <<na>>) \o NullE, LibE(1, nL) \o SysE(90, nC, <<na>>) \o NullE \o CallE(4, nA, nB, <<>>, <<>>)}
    ELSE UNION {WithId(i) : i \in OddIds} \cup {LibE(2, nM), EndE},
    UNION {{SysE(i, nA, <<>>), ClsTE(i, nB, <<na>>, <<ObjectType>>, 1), ClassWithIdE(i, 90), StrE(i, nS), RefE(i)} : i \in OddIds},
    UNION {{SysE(i, nA, <<>>), ClsE(i, nB, <<na>>, 1), ClassWithIdE(i, 90), StrE(i, nS), ArrObjE(i, 1), ArrPrimE(i, 1, 2)} : i \in OddIds})

\* Method calls and returns with their call arrays (C14, C15).
InlineArgs == {<<>>, <<<<17>>>>, <<<<8, 1, 2, 3, 4>>, StringCodeE(nS), <<2, 77>>>>}
ArgFlags == {0, 1, 2, 4, 8}
ContextFlags == {0, 16, 32, 64}
ReturnFlags == {0, 512, 1024, 2048, 4096}
MiscFlags == {0, 128, 256, 8192, 16384, 32768}
CallOf(fl, args) == CallE(fl, nA, nB, IF Has(fl, 32) THEN <<nC>> ELSE <<>>, IF Has(fl, 2) THEN <<args>> ELSE <<>>)
ReturnOf(fl, args, ret) == ReturnE(fl, IF Has(fl, 2048) THEN <<ret>> ELSE <<>>, IF Has(fl, 32) THEN <<nC>> ELSE <<>>, IF Has(fl, 2) THEN <<args>> ELSE <<>>)
AfterMethod ==
  Pick("method",
    IF s.ph = "call"
    THEN {ArrObjE(1, n) : n \in 0..3} \cup {ArrObjE(2, 1), ArrStrE(1, 1), ArrPrimE(1, 2, 8), BinArrayE(1, 0, <<2>>, <<>>, ObjectType), LibE(1, nL),
          SysE(3, nA, <<>>), SysE(1, nA, <<>>), StrE(3, nS), EndE}
    ELSE {ArrObjE(4, 1), ArrObjE(1, 1), SysE(5, nA, <<na>>), StrE(6, nS), CallOf(1, <<>>), ReturnOf(513, <<>>, <<>>), EndE},
    {RefE(1), RefE(2), RefE(7), StrE(7, nS), PrimTypedE(8, <<1, 2, 3, 4>>), SysE(8, nB, <<na>>), NullE},
    {ArrObjE(2, 2), ArrPrimE(2, 2, 8), ArrStrE(2, 1), BinArrayE(2, 2, <<2, 2>>, <<>>, PrimType(2)), StrE(2, nS), SysE(2, nC, <<>>), StrE(7, nT)})
CallL ==
  IF s.meth = <<>>
  THEN {CallOf(a + c + m, args) : a \in ArgFlags, c \in ContextFlags, m \in {0, 256}, args \in InlineArgs}
       \cup (IF k > 0 THEN {} ELSE {SysE(9, nA, <<>>), StrE(7, nS), LibE(1, nL), ArrObjE(1, 1), ArrObjE(2, 1)})
  ELSE AfterMethod
ReturnL ==
  IF s.meth = <<>>
  THEN {ReturnOf(a + c + r + m, <<<<2, 77>>, StringCodeE(nS)>>, ret) :
          a \in ArgFlags, c \in {0, 32, 64}, r \in ReturnFlags, m \in {0}, ret \in {<<17>>, <<8, 1, 2, 3, 4>>, StringCodeE(nS)}}
       \cup {ReturnOf(8192, <<>>, <<>>), ReturnOf(8192 + 32, <<>>, <<>>), ReturnOf(128, <<>>, <<>>)}
       \cup (IF k > 0 THEN {} ELSE {SysE(9, nA, <<>>), StrE(7, nS), ArrObjE(2, 1)})
  ELSE AfterMethod

\* Every combination of flags (C16). The bits that no rule mentions are left to Low.
FlagsOf(x) == (x % 128) + 128 * ((x \div 128) % 2) + 512 * ((x \div 256) % 32)
FlagsL ==
  Pick("flags",
    IF s.meth # <<>> THEN {}
    ELSE {CallOf(FlagsOf(x), <<>>) : x \in 0..8191} \cup {ReturnOf(FlagsOf(x), <<>>, <<17>>) : x \in 0..8191},
    {}, {})
HighFlagsL ==
  Pick("highflags",
    IF s.meth # <<>> THEN {}
    ELSE LET fs == {a + c + r + m + n : a \in ArgFlags \cup {12}, c \in {0, 16}, r \in ReturnFlags \cup {1536}, m \in MiscFlags, n \in {0, 256, 16384, 32768}} IN
         {CallOf(f, <<>>) : f \in fs} \cup {ReturnOf(f, <<>>, <<17>>) : f \in fs},
    {}, {})

\* Objects whose root is elsewhere (C17), with other records around.
RootL ==
  Pick("root",
    {SysE(i, nA, <<>>) : i \in Ids} \cup {ArrPrimE(i, 1, 2) : i \in Ids} \cup {StrE(i, <<115, i>>) : i \in Ids} \cup {SysE(i, nB, <<na>>) : i \in Ids}
      \cup {LibE(i, nL) : i \in {1, 2}} \cup {EndE},
    {StrE(i, <<116, i>>) : i \in Ids} \cup {SysE(i, nC, <<>>) : i \in {2, 3}} \cup {NullE, RefE(1), RefE(3)},
    {SysE(i, nC, <<>>) : i \in Ids} \cup {StrE(3, <<117>>)})

\* Members of objects, deep and wide (C06).
MembersL ==
  Pick("members",
    IF k > 1 THEN {EndE} ELSE
    {LibE(1, nL)}
      \cup {SysTE(1, nA, ns, <<t1, t2>>) : ns \in {<<na, nb>>, <<nb, na>>, <<na, na>>, <<<<>>, na>>}, t1, t2 \in {PrimType(8), PrimType(13), PrimType(1), StringType, ObjectType, SysTy(nS)}}
      \cup {ClsTE(1, nA, <<na, nb, nc>>, <<t1, t2, t3>>, 1) : t1, t2, t3 \in {PrimType(2), StringType, ObjectType}}
      \cup {ClsE(1, nA, ns, 1) : ns \in {<<>>, <<na>>, <<nc, na, nb>>}} \cup {SysE(1, nA, ns) : ns \in {<<>>, <<na>>, <<nc, na, nb>>}},
    {SysE(2, nS, <<>>), SysTE(2, nS, <<na, nb>>, <<PrimType(7), StringType>>), StrE(3, nS), RefE(4), NullE, PrimTypedE(8, <<1, 2, 3, 4>>)},
    {StrE(4, nT), SysE(4, nS, <<na>>), ArrObjE(4, 2)})

\* Objects for the serde properties (C18, C19, C20).
Sys(n) == <<83, 121, 115, 116, 101, 109, 46>> \o n
BoxNames == {Sys(n) : n \in {<<66, 111, 111, 108, 101, 97, 110>>, <<66, 121, 116, 101>>, <<83, 66, 121, 116, 101>>, <<67, 104, 97, 114>>, <<68, 111, 117, 98, 108, 101>>,
              <<83, 105, 110, 103, 108, 101>>, <<73, 110, 116, 49, 54>>, <<73, 110, 116, 51, 50>>, <<73, 110, 116, 54, 52>>, <<85, 73, 110, 116, 49, 54>>,
              <<85, 73, 110, 116, 51, 50>>, <<85, 73, 110, 116, 54, 52>>, <<79, 98, 106, 101, 99, 116>>, <<73, 110, 116, 51, 50, 96, 49>>,
              <<68, 101, 99, 105, 109, 97, 108>>, <<73, 110, 116>>, <<68, 97, 116, 101, 84, 105, 109, 101>>}} \cup {nA}
mv == <<109, 95, 118, 97, 108, 117, 101>>
BoxL ==
  Pick("box",
    IF k > 0 THEN {EndE}
    ELSE {SysTE(1, n, <<mv>>, <<PrimType(pt)>>) : n \in BoxNames, pt \in DOMAIN PrimName \ {17, 18}}
         \cup {SysE(1, n, <<mv>>) : n \in BoxNames}
         \cup {SysTE(1, n, <<na>>, <<PrimType(8)>>) : n \in BoxNames} \cup {SysTE(1, n, <<mv, na>>, <<PrimType(8), PrimType(8)>>) : n \in BoxNames}
         \cup {SysTE(1, n, <<na, mv>>, <<StringType, PrimType(2)>>) : n \in BoxNames}
         \cup {SysE(1, n, <<>>) : n \in BoxNames}
         \cup {LibE(1, nL) \o ClsTE(1, n, <<mv>>, <<PrimType(8)>>, 1) : n \in BoxNames},
    IF PrimHere(s)
    THEN {Payload(TypeHere(s).pt, n) : n \in {0, 1, 3}} \cup (IF Width(TypeHere(s).pt) > 1 THEN {[i \in 1..Width(TypeHere(s).pt) |-> 255]} ELSE {})
    ELSE {NullE, StrE(2, nS), StrE(2, <<195, 169>>), StrE(2, <<>>), PrimTypedE(8, <<5, 0, 0, 0>>), PrimTypedE(9, <<5, 0, 0, 0, 1, 0, 0, 0>>), PrimTypedE(2, <<5>>), PrimTypedE(1, <<1>>),
          PrimTypedE(3, <<97>>), PrimTypedE(6, <<0, 0, 0, 0, 0, 0, 240, 63>>), RefE(3), SysTE(4, Sys(<<73, 110, 116, 51, 50>>), <<mv>>, <<PrimType(8)>>)},
    {StrE(3, nS), ArrObjE(3, 1), SysTE(3, Sys(<<73, 110, 116, 54, 52>>), <<mv>>, <<PrimType(9)>>)})

ListName == Sys(<<67, 111, 108, 108, 101, 99, 116, 105, 111, 110, 115, 46, 71, 101, 110, 101, 114, 105, 99, 46, 76, 105, 115, 116>>)
ListNames == {ListName, ListName \o <<96, 49>>, ListName \o <<96, 49, 91, 91, 88, 93, 93>>, ListName \o <<49>>, nA, SubSeq(ListName, 1, Len(ListName) - 1)}
lit == <<95, 105, 116, 101, 109, 115>>
lsz == <<95, 115, 105, 122, 101>>
lve == <<95, 118, 101, 114, 115, 105, 111, 110>>
ListTypes(ns, it, st) == [i \in 1..Len(ns) |-> IF ns[i] = lit THEN it ELSE IF ns[i] = lsz THEN st ELSE PrimType(8)]
ListL ==
  Pick("list",
    IF k > 0 THEN {EndE}
    ELSE LET shapes == {<<lit, lsz, lve>>, <<lve, lsz, lit>>, <<lsz, lit>>, <<lit, lve>>, <<lsz, lve>>, <<lit, lsz, lve, na>>, <<lit, lsz, na>>, <<>>} IN
         {SysTE(1, n, ns, ListTypes(ns, it, PrimType(8))) : n \in ListNames, ns \in shapes, it \in {PrimArrTy(8), ObjArrTy, StrArrTy, ObjectType, StringType}}
         \cup {SysTE(1, n, <<lit, lsz, lve>>, ListTypes(<<lit, lsz, lve>>, PrimArrTy(8), st)) : n \in ListNames, st \in {PrimType(9), PrimType(15), PrimType(7), ObjectType}}
         \cup {LibE(1, nL) \o ClsTE(1, n, <<lit, lsz, lve>>, ListTypes(<<lit, lsz, lve>>, PrimArrTy(8), PrimType(8)), 1) : n \in ListNames},
    IF PrimHere(s)
    THEN IF TypeHere(s).pt = 8 THEN {LE4(n) : n \in {-1, 0, 1, 2, 3, Max31, Min31}} ELSE {Payload(TypeHere(s).pt, 2)}
    ELSE IF TypeHere(s).b = 2 THEN {RefE(7), NullE, PrimTypedE(8, LE4(1)), StrE(6, nS)} ELSE IF TypeHere(s).b = 1 THEN {NullE, StrE(6, nS)} ELSE {RefE(7), NullE},
    {ArrPrimE(7, n, 8) : n \in {0, 1, 2, 3}} \cup {ArrObjE(7, 2), ArrStrE(7, 2), BinArrayE(7, 2, <<2, 2>>, <<>>, PrimType(8)), SysE(7, nA, <<>>), StrE(7, nS)})

StructNames == {<<>>, <<na>>, <<nb>>, <<na, nb>>, <<nb, na>>, <<nc, nb, na>>, <<na, nc>>, <<na, nb, nc>>}
StructL ==
  Pick("struct",
    IF k > 0 THEN {EndE}
    ELSE {SysE(1, nA, ns) : ns \in StructNames}
         \cup {SysTE(1, nA, ns, [i \in 1..Len(ns) |-> IF ns[i] = na THEN PrimType(8) ELSE IF ns[i] = nb THEN StringType ELSE ObjectType]) : ns \in StructNames}
         \cup {LibE(1, nL) \o ClsTE(1, nA, ns, [i \in 1..Len(ns) |-> IF ns[i] = na THEN PrimType(9) ELSE IF ns[i] = nb THEN StringType ELSE PrimType(2)], 1) : ns \in StructNames}
         \cup {ArrObjE(1, n) : n \in 0..3} \cup {StrE(1, nS)},
    IF PrimHere(s) THEN {Payload(TypeHere(s).pt, n) : n \in {0, 3}} \cup {[i \in 1..Width(TypeHere(s).pt) |-> 255]}
    ELSE {NullE, StrE(2, nS), PrimTypedE(8, <<5, 0, 0, 0>>), SysE(4, nB, <<na, nb>>), RefE(3)},
    {StrE(3, nT), ArrObjE(3, 1), ArrPrimE(3, 2, 9)})

------------------------------------------------------------------------------
(* Long messages: the environment walks at random, choosing a kind of record and then a record of the kind among    *)
(* those that are allowed here, and rarely one that is not. For simulation only: a letter is drawn, not enumerated.  *)

Draw(S) == RandomElement(S)
Chance(n) == RandomElement(1..n) = 1
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* IDs that references of the open records wait for.
Awaited == UNION {{s.stack[i].vals[s.stack[i].refs[j]].id : j \in 1..Len(s.stack[i].refs)} : i \in 1..Len(s.stack)}
\* The next unused IDs, with gaps.
FreshId == 1 + MaxOf(s.ids \cup Awaited \cup {s.root, 2}) + (k % 3)
NewId == IF Place(s) = "wait" THEN Top(s).vals[Top(s).refs[1]].id
         ELSE IF Place(s) = "top" /\ s.root > 0 /\ s.root \notin s.ids /\ s.meth = <<>> /\ Chance(IF k > 4 THEN 5 ELSE 15) THEN s.root ELSE FreshId
FreshLib == 1 + MaxOf(DOMAIN s.libs \cup {0})

WalkText == Draw({<<>>, nS, <<195, 169>>, <<116, 101, 120, 116>>, <<226, 130, 172, 33>>} \cup {<<115, 48 + (k % 10)>>})
WalkClass == Draw({nA, nB, nC})
WalkNames == Draw({<<>>, <<na>>, <<nb>>, <<na, nb>>, <<nb, na>>, <<nc, na, nb>>, <<na, <<97, 97>>, nb, <<>>>>, <<nb, nc, na, <<195, 169>>, <<98, 98>>>>})
WalkPrim == Draw(DOMAIN PrimName \ {17, 18})
WalkType == LET x == Draw(1..9) IN
            CASE x <= 3 -> PrimType(WalkPrim) [] x = 4 -> StringType [] x = 5 -> ObjectType [] x = 6 -> SysTy(WalkClass)
              [] x = 7 -> IF s.libs = <<>> THEN SysTy(WalkClass) ELSE ClsTy(WalkClass, Draw(DOMAIN s.libs))
              [] x = 8 -> Draw({ObjArrTy, StrArrTy, PrimArrTy(WalkPrim)}) [] x = 9 -> ObjectType
WalkTypes(n) == TLCEval([i \in 1..n |-> TLCEval(WalkType)])
WalkPayload(pt) == IF Width(pt) > 1 /\ Chance(5) THEN [i \in 1..Width(pt) |-> 255] ELSE Payload(pt, Draw(0..99))
Room == IF Top(s).arr THEN Left(Top(s)) ELSE 1

\* A class record with the given name, of a library (its ID) or of the system (0).
WalkObject(id, name, li) ==
  LET ns == TLCEval(WalkNames) IN
  IF Chance(2) THEN IF li = 0 THEN SysE(id, name, ns) ELSE ClsE(id, name, ns, li)
  ELSE LET ty == WalkTypes(Len(ns)) IN IF li = 0 THEN SysTE(id, name, ns, ty) ELSE ClsTE(id, name, ns, ty, li)
AnyLibrary == IF s.libs = <<>> \/ Chance(2) THEN 0 ELSE Draw(DOMAIN s.libs)
WalkArray(id) ==
  LET x == Draw(1..6) IN
  CASE x = 1 -> ArrObjE(id, Draw(0..5)) [] x = 2 -> ArrStrE(id, Draw(0..5)) [] x = 3 -> ArrPrimE(id, Draw(0..5), WalkPrim)
    [] OTHER -> LET ls == TLCEval(Draw({<<0>>, <<1>>, <<3>>, <<5>>, <<2, 2>>, <<3, 1>>, <<1, 3>>, <<2, 1, 2>>, <<1, 2, 3>>}))
                    kd == IF Len(ls) = 1 THEN Draw({0, 1, 3, 4}) ELSE Draw({2, 5}) IN
                BinArrayE(id, kd, ls, IF kd > 2 THEN [i \in 1..Len(ls) |-> i] ELSE <<>>, WalkType)
\* Metadata that fits a place of type t.
Metas(t) == {m \in DOMAIN s.classes : LET c == s.classes[m] IN
               /\ c.sys \/ c.li \in DOMAIN s.libs
               /\ t.b = 2 \/ (t.b = 3 /\ c.sys /\ c.name = t.cn) \/ (t.b = 4 /\ ~c.sys /\ c.name = t.cn /\ c.li = t.li)}

\* References that nrbf can resolve: to a string or an object not yet taken, or to a record that comes next.
Referable == DOMAIN s.objs
WalkRef == LET inl == \E i \in 1..Len(s.stack) : s.stack[i].how = "inl" IN
           IF Referable # {} /\ (inl \/ Chance(2)) THEN RefE(Draw(Referable)) ELSE IF inl /\ ~Chance(20) THEN NullE ELSE RefE(FreshId)

WalkMember ==
  LET t == TypeHere(s)
      deep == Len(s.stack) >= 7
      x == Draw(1..10)
      nulls == IF Room = 1 THEN Draw({NullE, NullE, Nulls8E(1), NullsE(1)}) ELSE LET n == Draw(1..Min2(Room, 9)) IN Draw({NullE, Nulls8E(n), NullsE(n)})
      object == IF t.b \in {2, 3, 4}
                THEN IF Metas(t) # {} /\ Chance(2) THEN ClassWithIdE(FreshId, Draw(Metas(t)))
                     ELSE IF t.b = 2 THEN WalkObject(FreshId, WalkClass, AnyLibrary)
                     ELSE WalkObject(FreshId, t.cn, IF t.b = 3 THEN 0 ELSE t.li)
                ELSE nulls
  IN  CASE t.b = 0 -> Cat([i \in 1..(IF Top(s).arr THEN Left(Top(s)) ELSE 1) |-> WalkPayload(t.pt)])
        [] s.lib = 0 /\ Chance(25) -> LibE(FreshLib, Draw({nL, nM}))
        [] t.b \in {5, 6, 7} -> IF x <= 3 THEN nulls ELSE WalkRef
        [] t.b = 1 -> IF x <= 4 THEN StrE(FreshId, WalkText) ELSE IF x <= 6 THEN nulls ELSE WalkRef
        [] t.b = 2 -> CASE x <= 2 -> StrE(FreshId, WalkText) [] x = 3 -> LET pt == TLCEval(WalkPrim) IN PrimTypedE(pt, WalkPayload(pt))
                        [] x = 4 -> nulls [] x <= 7 -> WalkRef [] OTHER -> IF deep THEN nulls ELSE object
        [] OTHER -> IF x <= 2 THEN nulls ELSE IF x <= 5 THEN WalkRef ELSE IF deep THEN nulls ELSE object

WalkReferenceable ==
  LET x == Draw(1..8) id == TLCEval(NewId) IN
  CASE x <= 3 -> WalkArray(id)
    [] x <= 4 -> IF s.lib = 0 THEN StrE(id, WalkText) ELSE WalkArray(id)
    [] x <= 6 /\ Metas(ObjectType) # {} -> ClassWithIdE(id, Draw(Metas(ObjectType)))
    [] OTHER -> WalkObject(id, WalkClass, AnyLibrary)

WalkValue == LET pt == TLCEval(Draw(DOMAIN PrimName)) IN
             IF pt = 17 THEN <<17>> ELSE IF pt = 18 THEN StringCodeE(WalkText) ELSE <<pt>> \o WalkPayload(pt)
WalkValues == TLCEval([i \in 1..Draw(0..4) |-> TLCEval(WalkValue)])
WalkMethod ==
  LET root == s.root > 0 /\ s.root \notin s.ids
      a == TLCEval(Draw(IF root THEN {0, 1, 2, 4, 8, 4, 8} ELSE {0, 1, 2})) c == TLCEval(Draw({0, 16, 32, 64})) m == TLCEval(Draw({0, 256, 16384, 32768}))
      r == TLCEval(Draw(IF root /\ a # 4 THEN {0, 512, 1024, 2048, 4096} ELSE {0, 512, 1024, 2048}))
      ctx == IF c = 32 THEN <<WalkText>> ELSE <<>>
      args == IF a = 2 THEN <<WalkValues>> ELSE <<>>
  IN  IF Chance(2) THEN CallE(a + c + m, WalkText, WalkText, ctx, args) ELSE ReturnE(a + c + r + m, IF r = 2048 THEN <<WalkValue>> ELSE <<>>, ctx, args)
NeedsCallArray == s.ph = "call" /\ (Has(s.meth[1].fl, 4) \/ Has(s.meth[1].fl, 8) \/ Has(s.meth[1].fl, 4096))
WalkTop ==
  IF s.lib = 0 /\ Chance(6) THEN LibE(FreshLib, Draw({nL, nM}))
  ELSE IF NeedsCallArray /\ s.root \notin s.ids THEN IF DOMAIN s.objs # {} /\ Chance(2) THEN GatherE(s) ELSE ArrObjE(s.root, Draw(1..4))
  ELSE IF s.ph = "pre" /\ Chance(8) THEN WalkMethod
  ELSE WalkReferenceable
WalkWrong ==
  LET i == Draw(s.ids \cup {FreshId}) IN
  Draw({ClassWithIdE(i, FreshId), ClassWithIdE(FreshId, i), SysE(i, WalkClass, WalkNames), ClsE(FreshId, WalkClass, <<na>>, FreshLib), ClsE(0, nA, <<>>, 1), StrE(i, nS), StrE(-1, nS),
        RefE(i), RefE(0), RefE(FreshId), NullE, Nulls8E(0), Nulls8E(Draw(2..9)), NullsE(Draw({0, -1, 2, 3, 9})), EndE, LibE(Draw(DOMAIN s.libs \cup {0, -1}), nL), ArrPrimE(i, 1, 2), ArrObjE(i, 1),
        ArrStrE(FreshId, 0), BinArrayE(i, 0, <<1>>, <<>>, StringType), PrimTypedE(8, <<1, 0, 0, 0>>), CallE(1, nA, nB, <<>>, <<>>), ReturnE(513, <<>>, <<>>, <<>>), <<19>>, <<0>>, <<255>>})
WalkL == {TLCEval(IF s.bad = "" /\ s.ph \in {"pre", "call", "post"} /\ ~PrimHere(s) /\ Chance(30) THEN WalkWrong
                  ELSE CASE Place(s) = "top" -> WalkTop [] Place(s) = "member" -> WalkMember
                         [] Place(s) = "wait" -> IF s.lib = 0 /\ Chance(12) THEN LibE(FreshLib, Draw({nL, nM})) ELSE WalkReferenceable)}

\* Headers (C03).
HeaderLetters ==
  {HeaderE(r, h, ma, mi) : r \in {Min31, -1, 0, 1, 2, Max31}, h \in {Min31, -1, 0, 1, Max31},
     ma \in {Min31, -1, 0, 1, 2, 257, 65537, 16777217, Max31}, mi \in {Min31, -1, 0, 1, 256, 65536, 16777216, Max31}}
  \cup {<<t>> \o SubSeq(H(1), 2, 17) : t \in {1, 2, 5, 6, 11, 12, 22, 255}}

Letters ==
  CASE Family = "refs" -> RefsL [] Family = "meta" -> MetaL [] Family = "libs" -> LibsL [] Family = "types" -> TypesL
    [] Family = "nulls" -> NullsL [] Family = "arrays" -> ArraysL [] Family = "ids" -> IdsL [] Family = "call" -> CallL
    [] Family = "return" -> ReturnL [] Family = "flags" -> FlagsL [] Family = "highflags" -> HighFlagsL [] Family = "root" -> RootL
    [] Family = "members" -> MembersL [] Family = "box" -> BoxL [] Family = "list" -> ListL [] Family = "struct" -> StructL
    [] Family = "header" -> {} [] Family = "walk" -> WalkL

Headers ==
  CASE Family = "header" -> HeaderLetters
    [] Family = "walk" -> {H(r) : r \in {0, 1, 2, 3, 7, 90}}
    [] Family \in {"refs", "root"} -> {H(r) : r \in 0..3}
    [] Family \in {"meta", "ids"} -> {H(1), H(2)}
    [] OTHER -> {H(1)}

------------------------------------------------------------------------------
(* Completing a message *)

Fresh(bs) == 1000 + Len(bs)

Gathers(st) == Family = "walk" /\ st.root > 0 /\ st.root \notin st.ids /\ st.ph \in {"pre", "call"} /\ DOMAIN st.objs # {}

Filler(st, bs) ==
  LET f == Top(st) IN
  CASE Place(st) = "top" /\ Gathers(st) -> GatherE(st)
    [] Place(st) = "member" ->
         IF f.n = BigCount THEN EndE
         ELSE IF PrimHere(st) THEN IF IsPrimCode(TypeHere(st).pt) /\ TypeHere(st).pt \notin {17, 18}
                                   THEN IF f.arr THEN Cat([i \in 1..Left(f) |-> Payload(TypeHere(st).pt, i)]) ELSE Payload(TypeHere(st).pt, Len(f.vals))
                                   ELSE <<>>
         ELSE IF TypeHere(st).b = 2 THEN IF Left(f) > 20 THEN Nulls8E(Min2(Left(f) - 20, 255)) ELSE PrimTypedE(2, <<Left(f)>>)
         ELSE IF TypeHere(st).b = 1 THEN IF f.arr /\ Left(f) > 20 THEN NullsE(Left(f) - 20) ELSE IF Left(f) % 2 = 0 THEN NullE ELSE StrE(Fresh(bs), <<48 + Left(f)>>)
         ELSE IF f.arr /\ Left(f) > 3 THEN Nulls8E(Left(f)) ELSE NullE
    [] Place(st) = "wait" ->
         LET id == f.vals[f.refs[1]].id IN IF st.lib > 0 THEN SysE(id, <<87>>, <<>>) ELSE StrE(id, <<119>>)
    [] Place(st) = "top" ->
         IF st.ph = "call" /\ st.root \notin st.ids /\ (st.meth[1].fl % 8192) \div 4 # 0 /\ (Has(st.meth[1].fl, 4) \/ Has(st.meth[1].fl, 8) \/ Has(st.meth[1].fl, 4096))
         THEN IF Has(st.meth[1].fl, 8) THEN ArrObjE(st.root, 2) \o RefE(Fresh(bs)) \o NullE \o ArrPrimE(Fresh(bs), 2, 2) \o <<8, 9>> ELSE ArrObjE(st.root, 2)
         ELSE IF st.lib > 0 THEN IF st.meth = <<>> /\ st.root \notin st.ids /\ st.root > 0 THEN SysE(st.root, <<82>>, <<>>) ELSE SysE(Fresh(bs), <<82>>, <<>>)
         ELSE IF st.meth = <<>> /\ st.root > 0 /\ st.root \notin st.ids THEN StrE(st.root, <<114>>)
         ELSE EndE

RECURSIVE ReadAll(_, _)
\* The reader behind all the bytes it has.
ReadAll(st, bs) == IF st.ph = "done" \/ (st.p > Len(bs) /\ st.ph # "header") THEN st ELSE ReadAll(Apply(st, NextToken(st, Bytes(bs)), Bytes(bs)), bs)

RECURSIVE Close(_, _, _)
Close(st, bs, n) ==
  IF st.ph = "done" \/ n = 0 THEN [s |-> st, b |-> bs]
  ELSE LET bs2 == bs \o Filler(st, bs) IN
       IF bs2 = bs THEN [s |-> Apply(st, NextToken(st, Bytes(bs)), Bytes(bs)), b |-> bs]
       ELSE Close(ReadAll(st, bs2), bs2, n - 1)

------------------------------------------------------------------------------
(* Behaviours *)

Init == /\ b \in Headers
        /\ s = ReadAll(Init0("asis", Bytes(b)), b)
        /\ k = 0 /\ late = 0 /\ done = FALSE

Write == /\ ~done /\ s.ph # "done" /\ k < MaxRecords
         /\ s.bad = "" \/ late < Grace
         /\ \E l \in Letters : b' = b \o l /\ s' = (IF l = <<>> THEN s ELSE ReadAll(s, b'))
         /\ k' = k + 1
         /\ late' = IF s.bad = "" THEN 0 ELSE late + 1
         /\ UNCHANGED done

Ideal(st, bs) == IF MayDiffer(st) THEN Run("ideal", Bytes(bs)) ELSE st

Show(st, bs) ==
  LET id == Ideal(st, bs) IN
  PrintT("@M " \o ToJson([b |-> bs, r |-> PlainResult(st.res), i |-> IF MayDiffer(st) THEN <<PlainResult(id.res)>> ELSE <<>>, w |-> st.bad,
                          open |-> st.loose \/ id.loose \/ st.huge]))

Finish == /\ ~done
          /\ Family = "walk" => k = MaxRecords \/ s.ph = "done" \/ (s.bad # "" /\ late >= Grace)
          /\ LET c == Close(s, b, 300) IN
             /\ b' = c.b /\ s' = c.s
             /\ c.s.ph = "done" => Show(c.s, c.b)
          /\ done' = TRUE
          /\ UNCHANGED <<k, late>>

Next == Write \/ Finish
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What must hold of every behaviour *)

Distinct(seq) == \A i, j \in 1..Len(seq) : i # j => seq[i] # seq[j]

\* A record never has more members than declared; the open records are different ones, all registered.
FramesOk == \A i \in 1..Len(s.stack) :
              LET f == s.stack[i] IN
              /\ Len(f.vals) <= f.n
              /\ f.id \in s.ids
              /\ \A j \in 1..Len(f.refs) : f.vals[f.refs[j]].k = "Ref"
StackDistinct == s.bad = "" => Distinct([i \in 1..Len(s.stack) |-> s.stack[i].id])
\* The innermost record is not complete, or waits for a referenced one.
InnermostOpen == s.stack # <<>> => (Len(Top(s).vals) < Top(s).n \/ Top(s).refs # <<>>)
IdsOk == s.bad = "" => \A i \in s.ids : i > 0
LibsOk == s.bad = "" => \A i \in DOMAIN s.libs : i > 0
AvailableOk == DOMAIN s.objs \subseteq s.ids

RECURSIVE NoRef(_)
NoRef(v) == CASE v.k = "Ref" -> FALSE
              [] v.k = "Array" -> \A i \in 1..Len(v.v) : NoRef(v.v[i])
              [] v.k = "Object" -> \A i \in 1..Len(v.m) : NoRef(v.m[i][2])
              [] OTHER -> TRUE
NoRefResult(r) == CASE r.v.k = "Value" -> NoRef(r.v.val)
                    [] r.v.k = "MethodCall" -> r.v.a # <<>> => \A i \in 1..Len(r.v.a[1]) : NoRef(r.v.a[1][i])
                    [] r.v.k = "MethodReturn" -> /\ r.v.a # <<>> => \A i \in 1..Len(r.v.a[1]) : NoRef(r.v.a[1][i])
                                                 /\ r.v.ret # <<>> => NoRef(r.v.ret[1])

\* C02: acceptance means that everything was read and no rule broken.
AcceptedWhole == done /\ s.res.r = "ok" => s.bad = "" /\ s.p = Len(b) + 1 /\ s.stack = <<>>
\* C10: nothing accepted has an open reference.
AcceptedResolved == done /\ s.res.r = "ok" => NoRefResult(s.res)
\* The reader as it is accepts less than the ideal one, and gives the same where it accepts (known findings aside).
Refines == done /\ MayDiffer(s) /\ ~s.fwd /\ ~s.huge => LET id == Run("ideal", Bytes(b)) IN s.res.r = "ok" => id.res = s.res
\* C02: no proper prefix of an accepted message is accepted.
PrefixesRejected == done /\ s.res.r = "ok" => Run("asis", Bytes(SubSeq(b, 1, Len(b) - 1))).res.r = "err"
ExtensionRejected == done /\ s.res.r = "ok" => Run("asis", Bytes(Append(b, 11))).res.r = "err"

Terminates == done => s.ph = "done"
==============================================================================
