----------------------------- MODULE NrbfErrors -----------------------------
(***************************************************************************)
(* What an error says (C24): the text of an error names a rule, or nothing *)
(* in particular; the message breaks the rule that it names.               *)
(***************************************************************************)
EXTENDS NrbfReader

Cut == "truncated"

\* The rules of which a text says that one of them is broken. A field that is cut short is not a valid one either.
Claims(e) ==
  CASE e = "expected a SerializedStreamHeader" -> {"no header"}
    [] e = "invalid major version" -> {"major version", Cut}
    [] e = "invalid minor version" -> {"minor version", Cut}
    [] e = "invalid root ID" -> {"negative root ID", Cut}
    [] e = "unexpected trailing data" -> {"trailing data"}
    [] e = "missing root object" -> {"missing root"}
    [] e = "invalid object ID" -> {"object ID not positive", "reference ID not positive", "metadata ID not positive"}
    [] e = "duplicate object ID" -> {"duplicate object ID"}
    [] e = "missing metadata ID" -> {"missing metadata"}
    [] e = "invalid metadata ID" -> {"own metadata"}
    [] e = "invalid library ID" -> {"library ID not positive"}
    [] e = "missing library ID" -> {"missing library", "missing library of the declared type"}
    [] e = "duplicate library ID" -> {"duplicate library ID"}
    [] e = "unexpected class" -> {"not of the declared type"}
    [] e = "unresolvable member reference" -> {"not the referenced record"}
    [] e = "invalid NULL count" -> {"null count", "too many nulls"}
    [] e = "invalid length" -> {"negative length", "rank", "many elements"}
    [] e = "invalid MessageFlags" -> {"contradictory flags"}
    [] e = "expected MessageFlags" -> {Cut}
    [] e = "invalid method arguments" -> {"invalid arguments"}
    [] e = "invalid call array ID" -> {"call array is not the root"}
    [] e = "expected BinaryType" -> {"binary type", Cut}
    [] e = "expected BinaryArrayType" -> {"array kind", Cut}
    [] e = "expected PrimitiveType" -> {"primitive type", Cut}
    [] e = "expected a BOOLEAN" -> {"no value of the type", "no whole Boolean"}
    [] e = "expected a CHAR" -> {"no character", "no whole Char"}
    [] e = "expected a Decimal" -> {"no decimal", "string length", "not UTF-8", Cut}
    [] e = "expected a LengthPrefixedString" -> {"string expected", "string length", "not UTF-8", Cut}
    \* Counts and IDs are of these two.
    [] e = "expected a BYTE" -> {"no whole Byte", Cut}
    [] e = "expected an INT32" -> {"no whole Int32", Cut}
    [] e = "expected an INT8" -> {"no whole SByte"}
    [] e = "expected an INT16" -> {"no whole Int16"}
    [] e = "expected an INT64" -> {"no whole Int64"}
    [] e = "expected a UINT16" -> {"no whole UInt16"}
    [] e = "expected a UINT32" -> {"no whole UInt32"}
    [] e = "expected a UINT64" -> {"no whole UInt64"}
    [] e = "expected a SINGLE" -> {"no whole Single"}
    [] e = "expected a DOUBLE" -> {"no whole Double"}
    [] e = "expected a DateTime" -> {"no whole DateTime"}
    [] e = "expected a TimeSpan" -> {"no whole TimeSpan"}
    [] e = "expected ClassInfo" -> {"object ID not positive", "negative length", "string length", "not UTF-8", Cut}
    [] OTHER -> {}

True(e, st) == Claims(e) = {} \/ Claims(e) \cap st.bads # {}

\* A recorded error: the text of parse and that of from_slice.
TruthOf(v, st) == True(v[1], st) /\ (Len(v) = 2 => v[2] = "parsing error: " \o v[1])
==============================================================================
