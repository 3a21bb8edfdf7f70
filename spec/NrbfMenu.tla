------------------------------ MODULE NrbfMenu ------------------------------
(* The target types that the recorder (harness/src/targets.rs) deserializes into, as shapes of NrbfSerde. *)
EXTENDS NrbfSerde

tBool == [t |-> "bool"]
tI8 == IntT(1, TRUE)
tI16 == IntT(2, TRUE)
tI32 == IntT(4, TRUE)
tI64 == IntT(8, TRUE)
tI128 == IntT(16, TRUE)
tU8 == IntT(1, FALSE)
tU16 == IntT(2, FALSE)
tU32 == IntT(4, FALSE)
tU64 == IntT(8, FALSE)
tU128 == IntT(16, FALSE)
tF32 == [t |-> "f32"]
tF64 == [t |-> "f64"]
tChar == [t |-> "char"]
tString == [t |-> "string"]
tStr == [t |-> "str"]
tUnit == [t |-> "unit"]
tAny == [t |-> "any"]
tIgnored == [t |-> "ignored"]
tOpt(e) == [t |-> "opt", e |-> e]
tVec(e) == [t |-> "vec", e |-> e]
tTup(es) == [t |-> "tup", es |-> es]
tMap(e) == [t |-> "map", e |-> e]
\* Fields in the order of their names.
tStruct(fs) == [t |-> "struct", fs |-> fs]

nfa == <<97>>
nfb == <<98>>
nfc == <<99>>
nfn == <<110>>
nfz == <<122>>
nfinner == <<105, 110, 110, 101, 114>>

tAB == tStruct(<<<<nfa, tI32>>, <<nfb, tString>>>>)
tOptAB == tStruct(<<<<nfa, tOpt(tI32)>>, <<nfb, tOpt(tAny)>>>>)
tNest == tStruct(<<<<nfinner, tAB>>, <<nfz, tVec(tI64)>>>>)
tAnys == tStruct(<<<<nfa, tAny>>, <<nfb, tAny>>, <<nfc, tAny>>>>)
tListRaw == tStruct(<<<<nItems, tAny>>, <<nSize, tI32>>, <<nVersion, tI32>>>>)
tBoxRaw == tStruct(<<<<nmValue, tAny>>>>)
RECURSIVE tOptNest(_)
\* A recursive type, unrolled further than any generated message nests.
tOptNest(d) == tStruct(<<<<nfa, tOpt(tAB)>>, <<nfn, tOpt(IF d = 0 THEN tUnit ELSE tOptNest(d - 1))>>>>)

tWide == tStruct(<<<<<<98, 111>>, tOpt(tBool)>>, <<<<98, 121>>, tOpt(tU8)>>, <<<<99, 104>>, tOpt(tChar)>>, <<<<100, 97>>, tOpt(tI64)>>, <<<<100, 101>>, tOpt(tString)>>, <<<<100, 111, 117>>, tOpt(tF64)>>, <<<<105, 49>>, tOpt(tI16)>>, <<<<105, 51>>, tOpt(tI32)>>, <<<<105, 54>>, tOpt(tI64)>>, <<<<110, 117>>, tOpt(tUnit)>>, <<<<115, 98>>, tOpt(tI8)>>, <<<<115, 105>>, tOpt(tF32)>>, <<<<115, 116>>, tOpt(tString)>>, <<<<116, 105>>, tOpt(tI64)>>, <<<<117, 49>>, tOpt(tU16)>>, <<<<117, 51>>, tOpt(tU32)>>, <<<<117, 54>>, tOpt(tU64)>>>>)
tStrs == tStruct(<<<<nfa, tStr>>, <<nfb, tOpt(tStr)>>>>)
tStrict == [t |-> "strict", fs |-> tAB.fs]
\* Fields that a message may leave out, and what they are then.
tDefault == [t |-> "default", fs |-> tAB.fs, ds |-> <<IntV(Extend(<<0>>, TRUE)), [k |-> "str", s |-> <<>>]>>]
tFlat == [t |-> "flat", fs |-> <<<<nfa, tI32>>>>]
tUntagged == [t |-> "untagged"]
tSeqHead == [t |-> "seqhead"]
tMapHead == [t |-> "maphead"]
tSeqPast == [t |-> "seqpast"]
tBytes == [t |-> "bytes"]

Menu ==
  [bool |-> tBool, i8 |-> tI8, i16 |-> tI16, i32 |-> tI32, i64 |-> tI64, i128 |-> tI128, u8 |-> tU8, u16 |-> tU16, u32 |-> tU32, u64 |-> tU64,
   u128 |-> tU128, f32 |-> tF32, f64 |-> tF64, char |-> tChar, string |-> tString, str |-> tStr, unit |-> tUnit, any |-> tAny, ignored |-> tIgnored,
   opt_i32 |-> tOpt(tI32), opt_any |-> tOpt(tAny), opt_string |-> tOpt(tString), opt_opt_any |-> tOpt(tOpt(tAny)), opt_bool |-> tOpt(tBool),
   opt_unit |-> tOpt(tUnit), opt_vec_any |-> tOpt(tVec(tAny)), opt_map_any |-> tOpt(tMap(tAny)),
   vec_any |-> tVec(tAny), vec_i32 |-> tVec(tI32), vec_u8 |-> tVec(tU8), vec_i64 |-> tVec(tI64), vec_str |-> tVec(tStr), vec_string |-> tVec(tString),
   vec_opt_i32 |-> tVec(tOpt(tI32)), vec_opt_string |-> tVec(tOpt(tString)), vec_opt_any |-> tVec(tOpt(tAny)), vec_vec_any |-> tVec(tVec(tAny)),
   vec_vec_i32 |-> tVec(tVec(tI32)), vec_ab |-> tVec(tAB), vec_optab |-> tVec(tOptAB), vec_ignored |-> tVec(tIgnored),
   arr1_any |-> tTup(<<tAny>>), arr2_any |-> tTup(<<tAny, tAny>>), arr3_any |-> tTup(<<tAny, tAny, tAny>>), arr2_i32 |-> tTup(<<tI32, tI32>>),
   arr3_i32 |-> tTup(<<tI32, tI32, tI32>>), tup_i32_string |-> tTup(<<tI32, tString>>), tup_any_opt_any |-> tTup(<<tAny, tOpt(tAny)>>),
   tup3 |-> tTup(<<tAny, tOpt(tI32), tAny>>),
   map_any |-> tMap(tAny), map_i32 |-> tMap(tI32), map_opt_i32 |-> tMap(tOpt(tI32)), map_str_any |-> tMap(tAny), map_vec_any |-> tMap(tVec(tAny)),
   map_ignored |-> tMap(tIgnored),
   wide |-> tWide, vec_wide |-> tVec(tWide), unit_struct |-> tUnit, pair |-> tTup(<<tAny, tAny>>), strs |-> tStrs, strict |-> tStrict, default |-> tDefault, flat |-> tFlat,
   untagged |-> tUntagged, vec_untagged |-> tVec(tUntagged), seqhead |-> tSeqHead, maphead |-> tMapHead, seqpast |-> tSeqPast, vec_seqhead |-> tVec(tSeqHead),
   map_maphead |-> tMap(tMapHead), bytes |-> tBytes, vec_bytes |-> tVec(tBytes), cow |-> tString, arr0_any |-> tTup(<<>>), tup1 |-> tTup(<<tAny>>), vec_bool |-> tVec(tBool),
   vec_char |-> tVec(tChar), vec_f64 |-> tVec(tF64), vec_f32 |-> tVec(tF32), vec_u64 |-> tVec(tU64), vec_unit |-> tVec(tUnit), map_string |-> tMap(tString),
   map_char |-> [t |-> "mapchar", e |-> tAny], vec_map_any |-> tVec(tMap(tAny)), map_map_any |-> tMap(tMap(tAny)), opt_vec_opt_i32 |-> tOpt(tVec(tOpt(tI32))),
   vec_opt_ab |-> tVec(tOpt(tAB)), map_untagged |-> tMap(tUntagged), vec_strict |-> tVec(tStrict), vec_default |-> tVec(tDefault), opt_seqpast |-> tOpt(tSeqPast), map_ab |-> tMap(tAB),
   ab |-> tAB, optab |-> tOptAB, nest |-> tNest, anys |-> tAnys, listraw |-> tListRaw, boxraw |-> tBoxRaw, optnest |-> tOptNest(6),
   opt_ab |-> tOpt(tAB), opt_optab |-> tOpt(tOptAB), empty |-> tStruct(<<>>), box_i64 |-> tI64]
==============================================================================
