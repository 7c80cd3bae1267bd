------------------------------ MODULE MCBuilder ------------------------------
(* Every operation on every register of every kind of object, starting from a  *)
(* new object and from one with everything set, followed by every operation on *)
(* the same register (on any register for small objects).                      *)
EXTENDS Builder, Json, IOUtils

M1(k, v) == MapN(<<Str(k), v>>)
M2(k, v, l, w) == MapN(<<Str(k), v, Str(l), w>>)
E1(k, v) == [k |-> Str(k), v |-> v]
Rng(s) == {s[i] : i \in 1..Len(s)}

(* Values of a form. *)
OfForm(form) ==
  CASE form = "text"    -> <<Str(" first\ntext\n\n"), Str(""), Str("!other: [text]")>>
    [] form = "flag"    -> <<BoolN(TRUE), BoolN(FALSE)>>
    [] form = "count"   -> <<IntN("7"), IntN("0"), IntN(UnboundedCount)>>
    [] form = "int"     -> <<IntN("-42"), IntN("0"), IntN("9223372036854775807")>>
    [] form = "num"     -> <<FloatN("2.5"), IntN("0"), FloatN("-10000000000")>>
    [] form = "date"    -> <<Str("2020-05-06"), Str("")>>
    [] form = "rawlist" -> <<SeqN(<<Str("a"), IntN("1"), NullN>>), SeqN(<<>>)>>
    [] OTHER            -> <<Str("raw"), IntN("5"), SeqN(<<BoolN(TRUE), M1("k", NullN)>>)>>
Lists(form) == LET vs == OfForm(form) IN <<SeqN(<<vs[2], vs[1]>>), SeqN(<<vs[1]>>), SeqN(<<vs[1], vs[1], vs[2]>>)>>

Vals(c, o, r) ==
  IF r \in PartKeysOf(c, o) THEN
    LET p == PartNamed(c, o, r) IN
    IF r = "fileTypes" THEN Append(Lists(p.form), SeqN(<<Str("*/*")>>))
    ELSE IF r = "format" THEN Append(OfForm(p.form), Str("int8"))
    ELSE IF p.list THEN Lists(p.form) ELSE OfForm(p.form)
  ELSE CASE r = "annotations" -> <<M2("(z)", M1("by", NullN), "(a)", M2("y", IntN("1"), "b", SeqN(<<>>))), M1("(a)", MapN(<<>>)), MapN(<<>>)>>
         [] r = "extraFacets" -> <<M2("zz", Str("v"), "x-more", SeqN(<<IntN("1")>>)), M1("zz", NullN), MapN(<<>>)>>
         [] r = "resources"   -> <<M2("/z", M1("get", NullN), "/a", MapN(<<>>)), MapN(<<>>)>>
         [] r = "uses"        -> <<M2("z", Str("lib/z.raml"), "a", Str("")), M1("a", Str("x")), MapN(<<>>)>>
         [] r = "facetDefinitions" -> <<M2("f2", M2("z", Str("integer"), "y", M2("type", Str("number"), "minimum", IntN("3"))), "f1", MapN(<<>>)),
                                        M1("f1", M1("x", Str("P"))), MapN(<<>>)>>
         [] r \in {"properties", "types", "schemas"} ->
              <<M2("b", Str("integer"), "a", M2("type", Str("P"), "required", BoolN(FALSE))),
                M1("a", M2("type", Str("array"), "items", M1("properties", M1("q", Str("nil"))))), MapN(<<>>)>>
         [] r = "examples" -> LET v == OfForm(ExampleForm[o.kind])[1] IN
              <<M2("two", v, "one", M2("value", v, "strict", BoolN(FALSE))), M1("one", M2("value", v, "displayName", Str("d"))), MapN(<<>>)>>
         [] r = "example" -> LET v == OfForm(ExampleForm[o.kind])[1] IN <<v, MapN(<<Str("value"), v, Str("(n)"), M1("x", NullN), Str("strict"), BoolN(FALSE)>>)>>
         [] r = "xml" -> <<M2("name", Str("n"), "wrapped", BoolN(FALSE)), M1("zz", IntN("1"))>>
         [] r = "items" -> <<Str("integer"), M2("type", Str("string"), "minLength", IntN("2")), MapN(<<>>)>>
         [] r = "required" -> OfForm("flag")
         [] r = "value" -> OfForm(ExampleForm[o.kind])
         [] r = "type" -> <<Str("Other"), Str("A | B"), Str("integer")>>
         [] r \in {"title", "content"} -> OfForm("text")
         [] r = "documentation" -> <<SeqN(<<M2("title", Str("b"), "content", IncN("b.md")), MapN(<<Str("title"), Str("a"), Str("content"), Str("c"), Str("x"), NullN>>)>>),
                                     SeqN(<<M2("title", Str("a"), "content", Str("z"))>>)>>
         [] OTHER -> <<M2("z", M2("type", Str("string"), "description", NullN), "a", SeqN(<<IntN("1")>>)), M1("a", NullN), MapN(<<>>)>>

OpsOn(c, o, r) ==
  LET vs == Vals(c, o, r) IN
     {[op |-> "set", r |-> r, d |-> vs[i], k |-> ""] : i \in {j \in 1..Len(vs) : HasSetter(c, o, r)}}
  \cup (IF HasUnset(c, o, r) THEN {[op |-> "unset", r |-> r, d |-> NullN, k |-> ""]} ELSE {})
  \cup (IF TakesNil(c, o, r) THEN {[op |-> "nil", r |-> r, d |-> NullN, k |-> ""]} ELSE {})
  \cup (IF r \in Collections(c)
        THEN {[op |-> "put", r |-> r, k |-> p.k.v, d |-> p.v] : p \in UNION {Rng(Pairs(vs[i])) : i \in 1..Len(vs)}}
             \cup {[op |-> "del", r |-> r, k |-> p.k.v, d |-> NullN] : p \in Rng(Pairs(vs[1]))}
        ELSE {})
Ops(c, o) == UNION {OpsOn(c, o, r) : r \in Registers(c, o)}

(* Where a new object comes from, and one with everything set. *)
Kind14 == {k \in Kinds : Extended(k)}
ExprOf(kind) == CASE kind = "custom" -> "Person" [] kind = "union" -> "Cat | Dog" [] OTHER -> kind
New(c, kind) ==
  CASE c = "type" -> NewType(kind, ExprOf(kind)) [] c = "example" -> NewExample @@ [kind |-> kind]
    [] c = "xml" -> NewXml [] c = "entry" -> NewDoc [] OTHER -> NewDocument(c)
RECURSIVE FillWith(_, _, _, _)
FillWith(c, o, rs, i) ==
  IF rs = {} THEN o
  ELSE LET r == CHOOSE r \in rs : TRUE
           vs == Vals(c, o, r)
       IN  FillWith(c, SetR(c, o, r, vs[((i - 1) % Len(vs)) + 1]), rs \ {r}, i)
Full(c, kind, i) == FillWith(c, New(c, kind), Registers(c, New(c, kind)) \ {"type", "schemas"}, i)

Small(c) == c \in {"example", "xml", "entry"}
KindsFor(c) == IF c \in {"type", "example"} THEN Kind14 ELSE {""}

VARIABLES cls, kind, start, obj, hist,
          latest            \* what each register was last set to

bvars == <<cls, kind, start, obj, hist, latest>>
Classes == CASE IOEnv.SLICE = "types" -> {"type"} [] IOEnv.SLICE = "docs" -> {"api", "lib"} [] OTHER -> {"example", "xml", "entry"}
AllGet(c, o) == [r \in {Canonical(x) : x \in Registers(c, o)} |-> Get(c, o, r)]

BInit == /\ cls \in Classes /\ kind \in KindsFor(cls)
         /\ \E s \in {New(cls, kind), Full(cls, kind, 1), Full(cls, kind, 2)} : start = s
         /\ obj = start /\ hist = <<>> /\ latest = AllGet(cls, start)
BNext == /\ Len(hist) < 2
         /\ \E op \in Ops(cls, obj) :
              /\ hist # <<>> => \/ Canonical(op.r) = Canonical(hist[1].r)
                                \/ Small(cls)
              /\ obj' = Apply(cls, obj, op)
              /\ hist' = Append(hist, op)
              /\ latest' = [latest EXCEPT ![Canonical(op.r)] = Get(cls, obj', op.r)]
         /\ UNCHANGED <<cls, kind, start>>
MCBNext == /\ BNext
           /\ PrintT("B " \o ToJson([class |-> cls, kind |-> kind, from |-> RenderObject(cls, start), ops |-> hist', mid |-> obj, obj |-> obj',
                                     fresh |-> start = New(cls, kind), first |-> start, out |-> RenderObject(cls, obj'),
                                     back |-> ParseObject(cls, kind, Plain(RenderObject(cls, obj'))) = <<obj'>>]))
BSpec == BInit /\ [][MCBNext]_bvars

(******************************* Properties ********************************)
(* P16, P17, P18, P23: every register holds what was last put there.           *)
Independent == \A r \in DOMAIN latest : Get(cls, obj, r) = latest[r]
(* A set register reports the value it was given, an unset one is empty or has *)
(* its default again.                                                          *)
Reports ==
  hist # <<>> =>
    LET op == hist[Len(hist)] r == op.r IN
    /\ op.op \in {"unset", "nil"} => Get(cls, obj, r) = Get(cls, New(cls, kind), r)
    /\ op.op = "set" /\ r \in PartKeysOf(cls, obj) => Get(cls, obj, r) = ReadFacet(PartNamed(cls, obj, r), op.d)
    /\ op.op = "set" /\ r \in Collections(cls) =>
         [i \in 1..Len(Get(cls, obj, r)) |-> Get(cls, obj, r)[i].k] = [i \in 1..Len(Pairs(op.d)) |-> Pairs(op.d)[i].k.v]
    /\ op.op = "put" => Get(cls, obj, r)[Len(Get(cls, obj, r))].k = op.k
    /\ op.op = "del" => op.k \notin KeysOf(Get(cls, obj, r))
KindFixed == cls \in {"type", "example"} => obj.kind = kind
=============================================================================
