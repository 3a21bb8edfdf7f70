import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=list(obs) or ["RemotingMessage::parse"],hook_needed=None)))
BP="src/binary_parser/mod.rs"
p("C01","Every byte string gets an answer: a value or an error, never a crash",
"Parsing any byte string, and deserializing it into any supported type, ends with a value or an error. It never panics, aborts, overflows an integer or loops, whatever lengths, counts and references the bytes declare.",
["inputs"],"all byte strings (random bytes, mutations and truncations of valid messages, structured near misses), with every deserialization target",
"The tests feed 20 valid messages; the guarantee is about all the other inputs, which an untrusted peer chooses.",
[BP,"src/record","src/data_type","src/combinator.rs","src/value"],
[("checked length/ID conversions","src/combinator.rs"),("resolve_members, parse_binary_array reshaping",BP)],
obs=["RemotingMessage::parse","from_slice"])
p("C02","A message is exactly header, records and MessageEnd: no less, no more",
"A byte string is accepted only if it starts with a serialization header, continues with whole records allowed at their place, and ends with the first MessageEnd as its last byte. Every proper prefix of an accepted message is rejected, and so is an accepted message with anything appended.",
["inputs"],"all byte strings; every prefix and every extension of every accepted message; every record type byte at every record position",
"The tests contain no rejected message at all.",
[BP,"src/record/mod.rs","src/record/message_end.rs"],
[("parse_remoting_message",BP),("RecordType::parse","src/record/mod.rs"),("TrailingData check",BP)])
p("C03","Only headers of format version 1.0 with a non-negative root ID are accepted",
"The header must have major version 1, minor version 0 and a root ID that is not negative; anything else is rejected. The header ID may be any value and does not change the result.",
["inputs"],"all values of the four header fields (each full 32-bit range, boundary values and single-byte changes)",
"Every test uses version 1.0 and root ID 0 or 1.",
["src/record/serialization_header.rs"],[("SerializationHeader::parse","src/record/serialization_header.rs")])
p("C04","Primitive values are decoded exactly, the same way wherever they occur",
"Each of the 15 primitive types is read little-endian from exactly as many bytes as its type has, for every bit pattern (including NaN payloads, the extreme integers, DateTime kinds and ticks, multi-byte characters and decimals), and gives a value of that type. Bytes that are no value of the type (a Boolean other than 0 or 1, malformed UTF-8, decimal text that is not a number) are rejected. The result is the same whether the primitive is a typed member, an untyped member, an array element, an inline argument or a return value.",
["inputs"],"all primitive types x all bit patterns (boundaries and random) x all positions in which a primitive can occur",
"The tests read a few values per type in a single position; Char, Decimal, DateTime and TimeSpan are not tested.",
["src/data_type","src/record/member_primitive_typed.rs","src/record/member_primitive_untyped.rs","src/record/value_with_code.rs","src/value/date_time.rs","src/value/time_span.rs"],
[("data_type::*::parse","src/data_type"),("into_value","src/record/member_primitive_untyped.rs"),("DateTime::ticks/kind","src/value/date_time.rs")],
obs=["RemotingMessage::parse","DateTime::ticks","DateTime::kind","TimeSpan::value"])
p("C05","Strings are returned byte for byte as long as their length prefix says",
"A string is as many bytes as its prefix of one to five 7-bit groups, least significant first, declares; it is returned unchanged, and reading continues right behind it. A string which is not valid UTF-8, is cut short, or has a prefix beyond 2147483647 is rejected, in every position a string can occur (values, names of classes, members and libraries, method names, call contexts, decimals).",
["inputs"],"all string lengths (every boundary of the 7-bit groups), all contents (1 to 4 byte characters, malformed UTF-8), all positions",
"Four unit tests cover ASCII strings at the longest length of a group, in isolation.",
["src/data_type/length_prefixed_string.rs"],[("parse_len, LengthPrefixedString::parse","src/data_type/length_prefixed_string.rs")])
p("C06","Every object has its class, its library and each member's own value",
"An object record yields an object with the declared class name, the name of the library it refers to (none for system classes), and exactly one entry per declared member whose value is the one at the member's place in the record. This holds for all four class records, for typed and untyped members, at the root, nested and referenced.",
["inputs"],"all class records x numbers of members x member types x member values x nesting",
"The tests have objects with one class layout each and never compare two layouts or many members of different types.",
[BP,"src/common/class_info.rs","src/common/member_type_info.rs","src/common/additional_type_info.rs","src/record/class_with_members.rs","src/record/class_with_members_and_types.rs","src/record/system_class_with_members.rs","src/record/system_class_with_members_and_types.rs"],
[("parse_classes",BP),("parse_members_with_type_info",BP),("ClassInfo/MemberTypeInfo::parse","src/common")])
p("C07","A ClassWithId object is read with the metadata of the object it names",
"A ClassWithId record yields an object with the class name, library, member names and member types of the object record whose ID it names, and with its own member values. The named object must be a class record with metadata of its own (not another ClassWithId) that began earlier in the message (it may enclose the ClassWithId); otherwise, or if the record names its own ID, the message is rejected.",
["inputs","histories"],"all orders of class, ClassWithId, array and string records; metadata of all four class records; nested and enclosing use",
"No test has a ClassWithId whose metadata is looked up among several classes.",
[BP,"src/record/class_with_id.rs"],[("classes map in parse_classes",BP)],
state=[("classes","metadata of every class record so far by object ID",BP)])
p("C08","Library names are resolved by ID; library IDs are positive and unique",
"An object of a library class has the name given by the BinaryLibrary record with that ID, wherever earlier in the message that record was. A class or class-typed member referring to a library that no earlier record declares, a second library record with an ID already used, and a library ID that is not positive are rejected.",
["inputs","histories"],"all placements of library records (before an object, array, member or method record), several libraries, IDs equal to object IDs",
"The tests declare at most one or two libraries at the start and never use a missing or duplicate one.",
[BP,"src/record/binary_library.rs","src/combinator.rs"],[("parse_binary_library",BP)],
state=[("binary_libraries","library names by ID",BP)])
p("C09","A member or element is accepted only in the form its declared type allows",
"For a declared type: a primitive is read as an untyped value of that type; a String is a string record, reference or null; a SystemClass or Class is an object of exactly that class (and library), a reference or null; the array types are a reference or null; an Object or an undeclared type is a typed primitive, string, object, reference or null. Any other record in that place makes the message rejected.",
["inputs"],"all declared types x all record types in that place, for class members, ClassWithId members and array elements",
"Tests contain only matching records; no test has a record of the wrong kind.",
[BP],[("parse_member_reference",BP)])
p("C10","A reference stands for the object with that ID, and for nothing else",
"Every reference yields the object, array or string of exactly that ID, complete with its own members, wherever in the message its record is, and any number of references may name the same one. A reference to an ID that occurs nowhere, to an enclosing object or to a non-positive ID makes the message rejected.",
["inputs","histories"],"all graphs of objects, arrays and strings over a few IDs, in all record orders, with references backward and forward, from members, elements and call arrays",
"The tests have three messages with references, all forward and in the one order that works.",
[BP,"src/record/member_reference.rs"],[("resolve_members, take_object, parse_referenceable",BP)],
state=[("objects","objects parsed and not yet moved into another one",BP)])
p("C11","Arrays have exactly their declared length, runs of nulls included",
"An array yields exactly as many elements as declared, in order; a null run of n stands for n null elements. A run of zero, a run longer than the elements left, more than one null for a single class member, and a negative length are rejected.",
["inputs"],"all array records x lengths (0, 1, boundaries of the 8-bit and 7-bit forms, thousands) x all partitions of null runs among other elements",
"The tests use a single null run that fits.",
[BP,"src/record/object_null_multiple.rs","src/record/object_null_multiple_256.rs","src/common/array_info.rs"],
[("parse_array_single_object/string, parse_binary_array",BP)])
p("C12","A BinaryArray has the declared shape, in row-major order",
"A BinaryArray of rank r with non-zero lengths l1..lr yields l1 nested arrays of shape l2..lr, with the elements in row-major order; all six array kinds, with or without lower bounds, are read alike, and the lower bounds do not change the result. Rank 0, negative lengths or bounds, and unknown array kinds are rejected.",
["inputs"],"all array kinds x ranks 1..4 x lengths 1..4 (and larger vectors) x element types",
"The tests have a single rectangular array of rank 2 with few elements.",
[BP,"src/record/binary_array.rs","src/enumeration.rs"],[("parse_binary_array",BP),("BinaryArray::parse","src/record/binary_array.rs")])
p("C13","Object IDs are positive, and no two records share one",
"A message in which two object, array or string records have the same ID, or one has an ID that is not positive, is rejected, wherever the two occur (nested, referenced, call array, before and after a method record). IDs need not be consecutive or ordered, and a library may have the same number as an object.",
["inputs","histories"],"all pairs of record kinds and places sharing an ID; all ID values",
"No test has a duplicate ID.",
[BP,"src/combinator.rs"],[("register_object_id",BP),("object_id","src/combinator.rs")],
state=[("object_ids","IDs used so far",BP)])
p("C14","A method call's names, context and arguments come from where its flags say",
"A method call yields exactly the method name, type name, the call context if it is inline, and the arguments: none, the inline values in order, the whole call array, or the array that is its first item, as the flags say. A call whose arguments should be in a call array that is missing, or whose first item is not an array, is rejected; so is a call array whose ID is not the root ID.",
["inputs"],"all argument and context flag combinations x presence and contents of the call array x inline values of all types x records before and after",
"One test with inline arguments.",
[BP,"src/record/binary_method_call.rs","src/record/array_of_value_with_code.rs","src/record/string_value_with_code.rs"],
[("parse_method_call, parse_call_array",BP)])
p("C15","A method return's value, context and arguments come from where its flags say",
"A method return yields the return value (inline, or the item of the call array that follows the arguments, or none), the inline call context, and the arguments as for a method call, as the flags say. If the flags announce something in a call array that does not have it, the message is rejected.",
["inputs"],"all return, argument and context flag combinations x presence and contents of the call array x inline values of all types",
"One test with an inline string.",
[BP,"src/record/binary_method_return.rs","src/record/value_with_code.rs"],[("parse_method_return",BP)])
p("C16","Contradictory message flags are rejected, all others accepted",
"At most one flag of each of the argument, context and return categories may be set, and of the pairs argument/exception, return/exception, return/signature and exception/signature at most one category; a call or return with any other combination is rejected, and no combination that obeys these rules is rejected for its flags.",
["inputs"],"all 2^15 combinations of the defined flags, for calls and returns",
"The tests use two combinations, both valid.",
["src/record/message_flags.rs"],[("MessageFlags::parse","src/record/message_flags.rs")])
p("C17","The root ID alone decides which object is the message's value",
"A message without method record is the object or string whose ID is the header's root ID, whatever its position and whatever other objects the message has, or null if the root ID is zero; if there is no such object it is rejected. Unreferenced other objects do not change the result.",
["inputs","histories"],"all orders and kinds of top-level records x root IDs",
"In all tests the first record is the root, with ID 1 or 0.",
[BP],[("parse_remoting_message",BP)])
p("C18","Deserializing a primitive or boxed primitive gives its value or an error",
"A primitive, or a system object boxing one (its class named System.<type>, its only member m_value of that type), deserializes into every Rust number, bool, char or string type that can represent it with exactly that value, and into any other type, or when out of range, with an error; never with a changed value. A boxed object with a missing or additional member, or with a member whose value its type cannot represent, is an error. (Conversions from and between floating-point numbers are serde's and are not claimed.)",
["inputs"],"all primitive types x values x deserialization targets, plain and boxed, as root, member and element",
"The tests deserialize one value of each type into its own type.",
["src/value/mod.rs","src/value/object.rs","src/data_type/mod.rs"],[("ValueDeserializer","src/value/mod.rs"),("ObjectDeserializer","src/value/object.rs"),("impl_primitive","src/data_type/mod.rs")],
obs=["from_slice","RemotingMessage as Deserializer"])
p("C19","Arrays and Lists deserialize to exactly their elements",
"An array deserializes into a sequence of exactly its elements in order, and a System.Collections.Generic.List into exactly the first _size of its _items; a target that takes fewer elements than there are gets an error, as does a List whose _size is negative or larger than its items or whose members are not exactly _items, _size and _version.",
["inputs"],"all lengths x List sizes and capacities x targets of fixed and variable length x nesting",
"Two tests deserialize a List with spare capacity into a Vec.",
["src/value/mod.rs","src/value/object.rs"],[("ArrayDeserializer","src/value/mod.rs"),("ListDeserializer","src/value/object.rs")],
obs=["from_slice","RemotingMessage as Deserializer"])
p("C20","Objects deserialize to structs and maps by member name, null to None",
"An object deserializes into a struct or map with each member under its own name, independent of their order; a missing non-optional field is an error, an unknown one is ignored. Null deserializes to None or unit and to nothing else; any other value deserializes into an Option as Some of what it is without the Option, at the root as well as inside.",
["inputs"],"all objects (library and system classes) x orders and sets of members x struct, map and Option targets, nested",
"One test deserializes one object layout; Option is used nowhere.",
["src/value/mod.rs","src/value/object.rs","src/remoting_message.rs"],[("deserialize_struct, deserialize_option","src/value/mod.rs"),("MapDeserializer use","src/value/object.rs")],
obs=["from_slice","RemotingMessage as Deserializer"])
p("C21","from_slice and the Deserializer agree with parse",
"from_slice succeeds only for messages parse accepts as a value: if parse fails, or the message is a method call or return, it returns an error for every target. Otherwise it gives the same result as deserializing the parsed message, and a generic target sees the same scalars, strings, elements and members that parse returned.",
["inputs"],"all messages x targets; parse result against from_slice result",
"Tests check the two on separate hand-written values.",
["src/lib.rs","src/remoting_message.rs","src/value/mod.rs"],[("from_slice","src/lib.rs"),("to_deserializer","src/remoting_message.rs")],
obs=["RemotingMessage::parse","from_slice"])
p("C22","The result depends on the bytes alone",
"Parsing the same bytes always gives the same result: independent of what was parsed before in the process, on which thread, of where the bytes lie in memory, and of whether the serde feature is enabled.",
["inputs","histories","configurations"],"all messages, repeated, in shuffled order, on several threads, from differently placed copies, and in builds with and without serde",
"Every test parses one message once in one build.",
[BP,"src/remoting_message.rs","src/lib.rs"],[("BinaryParser::default per call","src/remoting_message.rs"),("record identity by address in parse_binary_library",BP)])
p("C23","Time and memory follow the bytes and elements, not the numbers in a message",
"Parsing takes time and memory in proportion to the bytes of the message plus the elements it yields (a run of n nulls is n elements), whatever lengths and counts it declares and however it is nested, whether it is accepted or rejected: no declared length is allocated before elements are there, and neither more rows, members, records or references nor deeper nesting cost more than their share.",
["inputs"],"all messages; in particular those that declare extreme lengths, and those that grow in one dimension (members, elements, rows, objects, metadata, libraries, references, strings, arguments, nested records)",
"The tests parse small messages; none declares more than it has.",
[BP,"src/combinator.rs","src/record"],[("parse_binary_array reshaping, resolve_members",BP),("element vectors",BP)],
obs=["RemotingMessage::parse","from_slice"])
p("C24","An error names what is wrong with the message",
"When parse rejects a message with an error that names a broken rule (such as duplicate object ID, missing metadata ID, missing library ID, invalid library ID, unexpected class, unresolvable member reference, invalid NULL count, invalid length, invalid MessageFlags, invalid method arguments, invalid call array ID, missing root object, unexpected trailing data, invalid major version, or expected followed by a primitive or enumeration), the message does break that rule. The error of from_slice for such a message is the same text behind 'parsing error: '. (Errors that only say which record or end was expected, and the choice between several broken rules, are not claimed.)",
["inputs"],"all rejected messages: every rule broken, alone and together, at every place",
"One test compares one error.",
["src/error.rs",BP,"src/record","src/lib.rs"],[("ErrorInner","src/error.rs"),("error_position!","src/error.rs"),("register_object_id and the other rules",BP),("from_slice","src/lib.rs")],
obs=["RemotingMessage::parse","from_slice"])
p("C25","A deserialization error says what does not fit, and it is so",
"When from_slice fails for a message that parse accepts, what its error names is true. A value it calls unexpected (an integer, number, boolean, character, string, null, sequence, map, method call or method return) is in the message. A length it gives ('invalid length n, expected k elements in array' or 'in list') is the number of elements of an array, or the _size of a List, in the message, and k is how many the target takes of it or how many there are. A missing field is one of the target's that an object lacks; an unknown field one that an object has; an 'invalid system class' is the class of a malformed List.",
["inputs"],"all accepted messages x targets they do not fit",
"Two tests compare one such error each.",
["src/value/mod.rs","src/value/object.rs","src/data_type/mod.rs","src/remoting_message.rs"],[("ArrayDeserializer::end, ExpectedInArray","src/value/mod.rs"),("ListDeserializer::end, invalid system class","src/value/object.rs"),("to_deserializer","src/remoting_message.rs")],
obs=["from_slice"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
