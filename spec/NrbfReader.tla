----------------------------- MODULE NrbfReader -----------------------------
(***************************************************************************)
(* What a message means: the state of a reader and its transitions, one    *)
(* per record ([MS-NRBF] 2.7, Binary Record Grammar).                      *)
(*                                                                         *)
(* Two readers share everything but the treatment of references:           *)
(*                                                                         *)
(*  "ideal"  what the format says: a reference may name a record anywhere  *)
(*           in the message, any number of references may name the same    *)
(*           one, and all of them are resolved at the end.                 *)
(*  "asis"   what nrbf is known to do instead (see known_findings.txt): a  *)
(*           reference is resolved as soon as the last member of its       *)
(*           record is read; if its record has not been read yet, that     *)
(*           record must come next; and an object can be referenced once.  *)
(*                                                                         *)
(* The reader goes on after the first violation where it can: s.bad is     *)
(* then set, for good, and the outcome is a rejection.  That way the model *)
(* can complete a message that is wrong in a single place, so that an      *)
(* implementation overlooking that place would accept it.                  *)
(*                                                                         *)
(* s.loose is set where the format leaves the outcome open and no property *)
(* is claimed; s.huge where the outcome needs more memory than can be      *)
(* afforded (known finding).                                               *)
(***************************************************************************)
EXTENDS NrbfLex

NoRes == [r |-> "none"]

Init0(mode, B) ==
  [mode |-> mode,
   p |-> 1,              \* position of the next byte
   ph |-> "header",      \* header, pre, call, post (before/at/after the method record), done
   root |-> 0,
   libs |-> <<>>,        \* library ID -> name
   classes |-> <<>>,     \* object ID -> class metadata
   ids |-> {},           \* IDs of class, array and string records
   objs |-> <<>>,        \* object ID -> value, still available for a reference (asis) or ever read (ideal)
   stack |-> <<>>,       \* objects and arrays being read, the innermost last
   lib |-> 0,            \* library records immediately before the next record
   meth |-> <<>>,        \* the method record, if any
   call |-> <<>>,        \* the call array, if any
   ref |-> FALSE,        \* a reference has been read
   fwd |-> FALSE,        \* asis: an inline object waited for a record that its own parent should have got
   bad |-> "",           \* the first rule that the message breaks
   bads |-> {},          \* all the rules it is known to break
   loose |-> FALSE,
   huge |-> FALSE,
   work |-> 0,           \* members and elements read so far, nulls counted one by one
   res |-> NoRes]

\* A rule that is broken, too, where the message is rejected for another one that comes first.
Note(s, why) == [s EXCEPT !.bads = @ \cup {why}]
NoteIf(s, c, why) == IF c THEN Note(s, why) ELSE s
\* In a call array it makes the arguments invalid, too.
Violate(s, why) == [NoteIf(Note(s, why), s.stack # <<>> /\ s.stack[1].how = "call", "invalid arguments") EXCEPT !.bad = IF @ = "" THEN why ELSE @]
Check(s, c, why) == IF c THEN s ELSE Violate(s, why)

Rejected(s) == [s EXCEPT !.ph = "done", !.res = [r |-> "err"]]

------------------------------------------------------------------------------
(* Texts and members *)

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN LexLess(a, b, i + 1) ELSE a[i] < b[i]

\* The members of an object ordered by name. Of members with the same name the last one stays.
MembersOf(names, vals) ==
  LET n == Len(names)
      keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A j \in (i + 1)..n : names[j] # names[i])
  IN  SortSeq([i \in 1..Len(keep) |-> <<names[keep[i]], vals[keep[i]]>>],
              LAMBDA x, y : LexLess(x[1], y[1], 1))

ObjectV(cls, lib, names, vals) == [k |-> "Object", c |-> cls, l |-> lib, m |-> MembersOf(names, vals)]
ArrayV(vals) == [k |-> "Array", v |-> vals]
RefV(id) == [k |-> "Ref", id |-> id]

\* Groups of l consecutive values (l divides their number).
Groups(vals, l) == [i \in 1..(Len(vals) \div l) |-> ArrayV(SubSeq(vals, (i - 1) * l + 1, i * l))]

RECURSIVE Shape(_, _)
Shape(vals, lens) ==
  IF Len(lens) <= 1 THEN ArrayV(vals)
  ELSE IF vals = <<>> THEN ArrayV(<<>>)
  ELSE Shape(Groups(vals, lens[Len(lens)]), SubSeq(lens, 1, Len(lens) - 1))

------------------------------------------------------------------------------
(* Frames: records whose members are being read *)

\* how: "top" (a referenceable on its own), "inl" (a member itself), "wait" (the record a reference waited for), "call".
Frame(tok, how, cls, lib, names, ty) ==
  [id |-> tok.id, how |-> how, arr |-> FALSE, cls |-> cls, lib |-> lib, names |-> names, ty |-> ty,
   n |-> Len(names), lens |-> <<>>, vals |-> <<>>, refs |-> <<>>]

ArrayFrame(tok, how) ==
  [id |-> tok.id, how |-> how, arr |-> TRUE, cls |-> <<>>, lib |-> <<>>, names |-> <<>>, ty |-> <<tok.ty>>,
   n |-> tok.n, lens |-> tok.lens, vals |-> <<>>, refs |-> <<>>]

Top(s) == s.stack[Len(s.stack)]
SetTop(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]
Push(s, f) == [s EXCEPT !.stack = Append(@, f)]

\* The place the next record is for.
Place(s) == IF s.stack = <<>> THEN "top"
            ELSE IF Len(Top(s).vals) < Top(s).n THEN "member"
            ELSE "wait"   \* asis only: the record named by Top(s).refs[1] must come now

TypeHere(s) == LET f == Top(s) IN IF f.arr THEN f.ty[1] ELSE f.ty[Len(f.vals) + 1]
PrimHere(s) == Place(s) = "member" /\ TypeHere(s).b = 0

Left(f) == f.n - Len(f.vals)
Worked(s, n) == [s EXCEPT !.work = @ + n]
AppendVal(s, v) == SetTop(Worked(s, 1), [Top(s) EXCEPT !.vals = Append(@, v)])
AppendVals(s, vs) == SetTop(Worked(s, Len(vs)), [Top(s) EXCEPT !.vals = @ \o vs])
AppendRef(s, id) == SetTop(Worked(s, 1), [Top(s) EXCEPT !.vals = Append(@, RefV(id)), !.refs = Append(@, Len(Top(s).vals) + 1)])

------------------------------------------------------------------------------
(* Completion: a frame with all its members becomes a value *)

\* The frame's own references are resolved (asis) as far as objects are available.
RECURSIVE ResolveTop(_)
ResolveTop(s) ==
  LET f == Top(s) IN
  IF f.refs = <<>> \/ s.mode = "ideal" THEN s
  ELSE LET id == f.vals[f.refs[1]].id IN
       IF id \in DOMAIN s.objs
       THEN LET v == s.objs[id]
                objs2 == IF v.k = "String" THEN s.objs ELSE [x \in (DOMAIN s.objs) \ {id} |-> s.objs[x]]
                f2 == [f EXCEPT !.vals[f.refs[1]] = v, !.refs = Tail(@)]
            IN  ResolveTop([SetTop(s, f2) EXCEPT !.objs = objs2])
       ELSE s

FrameValue(f) == IF f.arr THEN Shape(f.vals, f.lens) ELSE ObjectV(f.cls, f.lib, f.names, f.vals)

Keep(s, id, v) == [s EXCEPT !.objs = (id :> v) @@ @]

\* Fills the place that the first open reference of the innermost frame waits in.
FillWait(s, v) == LET f == Top(s) IN SetTop(s, [f EXCEPT !.vals[f.refs[1]] = v, !.refs = Tail(@)])

RECURSIVE Settle(_)
Settle(s) ==
  IF s.stack = <<>> \/ Place(s) = "member" THEN s
  ELSE LET s1 == ResolveTop(s)
           f == Top(s1)
       IN  IF f.refs # <<>> /\ s.mode = "asis"
           THEN \* A forward reference. In an inline object the next record belongs to the parent by the grammar.
                [s1 EXCEPT !.fwd = @ \/ \E i \in 1..Len(s1.stack) : s1.stack[i].how = "inl"]
           ELSE LET v == FrameValue(f)
                    s2 == [s1 EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
                    s3 == IF s.mode = "ideal" THEN Keep(s2, f.id, v) ELSE s2
                IN  Settle(CASE f.how = "top" -> Keep(s2, f.id, v)
                             [] f.how = "inl" -> AppendVal(s3, v)
                             [] f.how = "wait" -> FillWait(s2, v)
                             [] f.how = "call" -> [s3 EXCEPT !.call = <<v>>, !.ph = "post"])

------------------------------------------------------------------------------
(* Records with an ID *)

Register(s, id) ==
  LET s1 == Check(Check(s, id > 0, "object ID not positive"), id \notin s.ids, "duplicate object ID") IN
  [s1 EXCEPT !.ids = @ \cup {id}]

\* A record that can be referenced begins: is it the one that must come?
Begin(s, id) ==
  IF Place(s) = "wait" THEN Check(s, id = Top(s).vals[Top(s).refs[1]].id, "not the referenced record") ELSE s

How(s) == CASE Place(s) = "top" -> "top" [] Place(s) = "member" -> "inl" [] Place(s) = "wait" -> "wait"

\* The method record may be followed by a call array, but not after another record.
LeaveCall(s) == IF s.stack = <<>> /\ s.ph = "call" THEN [s EXCEPT !.ph = "post"] ELSE s

\* 2.3.2: a class record whose metadata is m.
BeginClass(s, tok, m) ==
  LET here == Place(s) = "member"
      ty == IF here THEN TypeHere(s) ELSE ObjectType
      known == m.sys \/ m.li \in DOMAIN s.libs
      lib == IF m.sys THEN <<>> ELSE IF known THEN <<s.libs[m.li]>> ELSE <<>>
      fits == CASE ty.b = 2 -> TRUE
                [] ty.b = 3 -> m.name = ty.cn /\ m.sys
                [] ty.b = 4 -> m.name = ty.cn /\ ~m.sys /\ ty.li \in DOMAIN s.libs /\ lib = <<s.libs[ty.li]>>
                [] OTHER -> FALSE
      s1 == Register(Begin(Check(Check(s, known, "missing library"), fits, "not of the declared type"), tok.id), tok.id)
  IN  Settle(Push(s1, Frame(tok, How(s), m.name, lib, m.names, m.ty)))

OnClass(s, tok) ==
  LET m == [name |-> tok.name, names |-> tok.names, ty |-> tok.ty, sys |-> tok.sys, li |-> tok.li]
      s1 == Check(s, tok.sys \/ tok.li > 0, "library ID not positive")
      s2 == Check(s1, \A i \in 1..Len(tok.ty) : tok.ty[i].b = 4 => tok.ty[i].li > 0, "library ID not positive")
      s3 == IF tok.id \in s2.ids THEN s2 ELSE [s2 EXCEPT !.classes = (tok.id :> m) @@ @]
  IN  BeginClass(s3, tok, m)

OnClassWithId(s, tok) ==
  IF tok.meta \in DOMAIN s.classes
  THEN BeginClass(Check(s, tok.meta # tok.id, "own metadata"), tok, s.classes[tok.meta])
  ELSE BeginClass(NoteIf(NoteIf(Violate(s, "missing metadata"), tok.meta = tok.id, "own metadata"), tok.meta <= 0, "metadata ID not positive"), tok, [name |-> <<63>>, names |-> <<>>, ty |-> <<>>, sys |-> TRUE, li |-> 0])

\* 2.4.3: arrays are not inlined into other records.
OnArray(s, tok) ==
  LET s0 == NoteIf(Check(s, Place(s) # "member", "inline array"), tok.n = BigCount, "many elements")
      s1 == Check(s0, tok.ty.b = 4 => tok.ty.li > 0, "library ID not positive")
      s2 == Register(Begin(s1, tok.id), tok.id)
  IN  IF s.stack = <<>> /\ s.ph = "call" /\ tok.rt = 16
      THEN Settle(Push(Check(s2, tok.id = s.root, "call array is not the root"), ArrayFrame(tok, "call")))
      ELSE Settle(Push(LeaveCall(s2), ArrayFrame(tok, How(s))))

\* 2.5.7
OnString(s, tok) ==
  LET s1 == Register(Begin(s, tok.id), tok.id)
      s2 == Keep(s1, tok.id, StringV(tok.s))
  IN  CASE Place(s) = "top" -> LeaveCall(Check(s2, s.lib = 0, "library before a string"))
        [] Place(s) = "wait" -> Settle(FillWait(Check(s2, s.lib = 0, "library before a string"), StringV(tok.s)))
        [] Place(s) = "member" -> Settle(AppendVal(Check(s2, TypeHere(s).b \in {1, 2}, "not of the declared type"), StringV(tok.s)))

------------------------------------------------------------------------------
(* Records without an ID *)

\* 2.5.3
OnRef(s, tok) ==
  IF Place(s) # "member" THEN Violate(LeaveCall(s), "reference out of place")
  ELSE Settle(AppendRef(Check([s EXCEPT !.ref = TRUE], tok.id > 0, "reference ID not positive"), tok.id))

\* 2.5.4 - 2.5.6
OnNulls(s, tok) ==
  IF Place(s) # "member" THEN Violate(LeaveCall(s), "null out of place")
  ELSE LET f == Top(s)
           room == IF f.arr THEN Left(f) ELSE 1
           fit == Check(Check(s, tok.n >= 1, "null count"), tok.n <= room, "too many nulls")
       IN  IF tok.n < 1 THEN fit
           ELSE IF f.arr /\ f.n = BigCount
           THEN IF tok.n > 70000 THEN Rejected([fit EXCEPT !.huge = TRUE]) ELSE Settle(AppendVals(fit, [i \in 1..tok.n |-> NullV]))
           ELSE Settle(AppendVals(fit, [i \in 1..Min2(tok.n, room) |-> NullV]))

\* Decimals whose outcome is left open.
Loosen(s, vs) == [s EXCEPT !.loose = @ \/ \E i \in 1..Len(vs) : "loose" \in DOMAIN vs[i]]

\* 2.5.1
OnPrimTyped(s, tok) ==
  IF Place(s) # "member" THEN Violate(LeaveCall(s), "primitive out of place")
  ELSE Settle(AppendVal(Check(Loosen(s, <<tok.v>>), TypeHere(s).b = 2, "not of the declared type"), tok.v))

\* 2.6.2
OnLibrary(s, tok) ==
  LET s1 == Check(Check(s, tok.id > 0, "library ID not positive"), tok.id \notin DOMAIN s.libs, "duplicate library ID")
      s2 == IF tok.id \in DOMAIN s.libs THEN s1 ELSE [s1 EXCEPT !.libs = (tok.id :> tok.s) @@ @]
  IN  [s2 EXCEPT !.lib = @ + 1, !.loose = @ \/ s.lib > 0]

------------------------------------------------------------------------------
(* The end of the message *)

\* Every reference below v is resolved (ideal). ok is FALSE if one names no record or an enclosing object.
RECURSIVE Unfold(_, _, _)
Unfold(s, v, path) ==
  CASE v.k = "Ref" -> IF v.id \in path \/ v.id \notin DOMAIN s.objs THEN [ok |-> FALSE, v |-> NullV]
                      ELSE Unfold(s, s.objs[v.id], path \cup {v.id})
    [] v.k = "Array" -> LET u == [i \in 1..Len(v.v) |-> Unfold(s, v.v[i], path)] IN
                        [ok |-> \A i \in 1..Len(u) : u[i].ok, v |-> ArrayV([i \in 1..Len(u) |-> u[i].v])]
    [] v.k = "Object" -> LET u == [i \in 1..Len(v.m) |-> Unfold(s, v.m[i][2], path)] IN
                         [ok |-> \A i \in 1..Len(u) : u[i].ok,
                          v |-> [v EXCEPT !.m = [i \in 1..Len(u) |-> <<v.m[i][1], u[i].v>>]]]
    [] OTHER -> [ok |-> TRUE, v |-> v]

\* All records are unfolded, referenced or not: a dangling reference makes the message wrong wherever it is.
AllResolved(s) == /\ \A id \in DOMAIN s.objs : Unfold(s, s.objs[id], {id}).ok
                  /\ s.call # <<>> => Unfold(s, s.call[1], {s.root}).ok

Final(s, v) == IF s.mode = "ideal" THEN Unfold(s, v, {}).v ELSE v

\* Whether item i of the call array exists.
CallItem(s, i) == s.call # <<>> /\ i <= Len(s.call[1].v)
Item(s, i) == Final(s, s.call[1].v[i])

ArgsOk(s, fl) ==
  IF Has(fl, FlagArgsIsArray) THEN s.call # <<>>
  ELSE IF Has(fl, FlagArgsInArray) THEN CallItem(s, 1) /\ Item(s, 1).k = "Array"
  ELSE TRUE

ArgsOf(s, m) ==
  IF Has(m.fl, FlagArgsIsArray) THEN <<Final(s, s.call[1]).v>>
  ELSE IF Has(m.fl, FlagArgsInArray) THEN <<Item(s, 1).v>>
  ELSE m.args

ReturnIndex(fl) == IF Has(fl, FlagArgsInArray) THEN 2 ELSE 1
ReturnInArray(fl) == Has(fl, FlagReturnInArray) /\ ~Has(fl, FlagArgsIsArray)

MethodResult(s) ==
  LET m == s.meth[1]
      ok == ArgsOk(s, m.fl) /\ (m.t = "MethodReturn" /\ ReturnInArray(m.fl) => CallItem(s, ReturnIndex(m.fl)))
  IN  IF ~ok THEN [r |-> "err"]
      ELSE IF m.t = "MethodCall"
      THEN [r |-> "ok", v |-> [k |-> "MethodCall", n |-> m.name, t |-> m.type, x |-> m.ctx, a |-> ArgsOf(s, m)]]
      ELSE [r |-> "ok", v |-> [k |-> "MethodReturn",
                               ret |-> IF ReturnInArray(m.fl) THEN <<Item(s, ReturnIndex(m.fl))>> ELSE m.ret,
                               x |-> m.ctx, a |-> ArgsOf(s, m)]]

ValueResult(s) ==
  IF s.root = 0 THEN [r |-> "ok", v |-> [k |-> "Value", val |-> NullV]]
  ELSE IF s.root \in DOMAIN s.objs THEN [r |-> "ok", v |-> [k |-> "Value", val |-> Final(s, s.objs[s.root])]]
  ELSE [r |-> "err"]

\* A violation behind which nothing can be read. The arguments of a method record can be told to be invalid even so.
Stop(s, why) == Rejected(NoteIf(Violate(s, why), s.meth # <<>> /\ MethodResult(s).r = "err", "invalid arguments"))

\* 2.2.3.1, 2.2.3.3
OnMethod(s, tok) ==
  IF s.stack # <<>> \/ s.ph # "pre" THEN Stop(s, "method record out of place")
  ELSE LET vs == tok.ret \o (IF tok.args = <<>> THEN <<>> ELSE tok.args[1]) IN
       [Check(Loosen(s, vs), FlagsOk(tok.fl), "contradictory flags") EXCEPT !.ph = "call", !.meth = <<tok>>]

OnEnd(s, B) ==
  IF s.stack # <<>> THEN Stop(s, "end of message inside a record")
  ELSE LET s1 == Check(Check(s, s.lib = 0, "library before the end"), s.p > BLen(B), "trailing data")
           s2 == IF s.mode = "ideal" THEN Check(s1, s1.bad # "" \/ AllResolved(s1), "unresolvable reference") ELSE s1
           r == IF s2.bad # "" THEN [r |-> "err"] ELSE IF s2.meth # <<>> THEN MethodResult(s2) ELSE ValueResult(s2)
           s3 == IF s2.meth # <<>> THEN Check(s2, MethodResult(s2).r = "ok", "invalid arguments")
                 ELSE Check(s2, ValueResult(s2).r = "ok", "missing root")
       IN  [s3 EXCEPT !.ph = "done", !.res = r]

------------------------------------------------------------------------------
(* Steps *)

OnHeader(s, tok) ==
  LET s1 == Check(s, tok.major = 1, "major version")
      s2 == Check(s1, tok.minor = 0, "minor version")
      s3 == Check(s2, tok.root >= 0, "negative root ID")
  IN  [s3 EXCEPT !.ph = "pre", !.root = tok.root]

\* Untyped primitives of one type: a member, or all the elements of an array. Not a record.
OnPrims(s, tok) == Settle(AppendVals(Loosen(s, tok.vs), tok.vs))

\* In a place whose declared class is of an undeclared library, nothing can be accepted (the reader looks it up first).
MemberLibrary(s) ==
  IF Place(s) = "member" /\ TypeHere(s).b = 4
  THEN Check(s, TypeHere(s).li \in DOMAIN s.libs, "missing library of the declared type") ELSE s

\* What is next in the input: a token, or the end of what can be read.
NextToken(s, B) ==
  LET r == CASE s.ph = "done" -> Ok(s.p, [t |-> "Done"])
             [] s.ph = "header" -> HeaderRecord(B)
             [] OTHER -> IF PrimHere(s)
                         THEN Then(Prims(B, s.p, TypeHere(s).pt, IF Top(s).arr THEN Left(Top(s)) ELSE 1),
                                   LAMBDA q, vs : Ok(q, [t |-> "Prims", vs |-> vs]))
                         ELSE RecordAt(B, s.p)
  IN  IF r.ok THEN r.v @@ [q |-> r.p] ELSE [t |-> "Malformed", why |-> r.v, q |-> s.p]

\* What else is wrong with a record that cannot be read to its end.
Suspect(s, B) ==
  IF s.ph = "header" THEN NoteIf(s, BLen(B) = 0, "no header")
  ELSE IF s.p > BLen(B) \/ PrimHere(s) THEN s
  ELSE LET t == At(B, s.p)
           n == I32(B, s.p + 1)
           low(r) == r.ok /\ r.v <= 0
       IN  IF t \in {21, 22} THEN NoteIf(s, n.ok /\ ~FlagsOk(n.v), "contradictory flags")
           ELSE IF t = 12 THEN NoteIf(s, low(n), "library ID not positive")
           ELSE IF t \in (1..7) \cup (15..17) THEN NoteIf(s, low(n), "object ID not positive")
           ELSE s

Apply(s0, tok, B) ==
  LET s == [s0 EXCEPT !.p = tok.q]
      clear(x) == [x EXCEPT !.lib = 0]
  IN  CASE tok.t = "Header" -> OnHeader(s, tok)
        [] tok.t = "Prims" -> OnPrims(s, tok)
        [] tok.t = "Class" -> clear(OnClass(LeaveCall(MemberLibrary(s)), tok))
        [] tok.t = "ClassWithId" -> clear(OnClassWithId(LeaveCall(MemberLibrary(s)), tok))
        [] tok.t = "Array" -> clear(OnArray(MemberLibrary(s), tok))
        [] tok.t = "String" -> clear(OnString(MemberLibrary(s), tok))
        [] tok.t = "Ref" -> clear(OnRef(MemberLibrary(s), tok))
        [] tok.t = "Nulls" -> clear(OnNulls(MemberLibrary(s), tok))
        [] tok.t = "PrimTyped" -> clear(OnPrimTyped(MemberLibrary(s), tok))
        [] tok.t = "Library" -> OnLibrary(s, tok)
        [] tok.t \in {"MethodCall", "MethodReturn"} -> clear(OnMethod(MemberLibrary(s), tok))
        [] tok.t = "End" -> OnEnd(MemberLibrary(s), B)
        [] tok.t = "Malformed" -> Stop(Suspect(MemberLibrary(s), B), tok.why)

\* The reader's whole behaviour on an input, as a function.
\* Whether the ideal reader may see something else than st, the reader as it is, in the same input.
MayDiffer(st) == st.ref \/ (st.bad = "missing root" /\ st.root \in st.ids)

\* What the public interface shows of a value: the fourth kind of DateTime is no kind.
RECURSIVE Plain(_)
Plain(v) ==
  CASE v.k = "DateTime" /\ v.z = "three" -> [v EXCEPT !.z = "none"]
    [] v.k = "Array" -> [v EXCEPT !.v = [i \in 1..Len(@) |-> Plain(@[i])]]
    [] v.k = "Object" -> [v EXCEPT !.m = [i \in 1..Len(@) |-> <<@[i][1], Plain(@[i][2])>>]]
    [] OTHER -> v
PlainSeq(vs) == [i \in 1..Len(vs) |-> Plain(vs[i])]
PlainResult(r) ==
  IF r.r # "ok" THEN r
  ELSE CASE r.v.k = "Value" -> [r EXCEPT !.v.val = Plain(@)]
         [] r.v.k = "MethodCall" -> [r EXCEPT !.v.a = IF @ = <<>> THEN @ ELSE <<PlainSeq(@[1])>>]
         [] r.v.k = "MethodReturn" -> [r EXCEPT !.v.a = IF @ = <<>> THEN @ ELSE <<PlainSeq(@[1])>>, !.v.ret = PlainSeq(@)]

\* How many values an outcome is made of.
Sum(ns) == FoldLeft(LAMBDA a, n : a + n, 0, ns)
RECURSIVE Size(_)
Size(v) ==
  CASE v.k = "Array" -> 1 + Sum([i \in 1..Len(v.v) |-> Size(v.v[i])])
    [] v.k = "Object" -> 1 + Sum([i \in 1..Len(v.m) |-> Size(v.m[i][2])])
    [] OTHER -> 1
SizeSeq(vs) == Sum([i \in 1..Len(vs) |-> Size(vs[i])])
SizeResult(r) ==
  IF r.r # "ok" THEN 0
  ELSE CASE r.v.k = "Value" -> Size(r.v.val)
         [] r.v.k = "MethodCall" -> IF r.v.a = <<>> THEN 0 ELSE SizeSeq(r.v.a[1])
         [] r.v.k = "MethodReturn" -> SizeSeq(r.v.ret) + (IF r.v.a = <<>> THEN 0 ELSE SizeSeq(r.v.a[1]))

RECURSIVE RunFrom(_, _)
RunFrom(s, B) == IF s.ph = "done" THEN s ELSE RunFrom(Apply(s, NextToken(s, B), B), B)
Run(mode, B) == RunFrom(Init0(mode, B), B)
==============================================================================
