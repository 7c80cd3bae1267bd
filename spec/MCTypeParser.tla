---------------------------- MODULE MCTypeParser -----------------------------
(* A systematic catalogue of type definitions; each one is printed with what   *)
(* it means and how it is written, and is read by the real library.            *)
EXTENDS TypeParser, Json, IOUtils

M1(k, v) == MapN(<<Str(k), v>>)
M2(k, v, l, w) == MapN(<<Str(k), v, Str(l), w>>)

(* Values of every shape, among them every value some facet can have. *)
Values == <<
  Str("word"), Str(""), Str("12"), Str("true"), Str("a | b"), Str("!include y"), Str("2020-01-02"),
  IntN("5"), IntN("0"), IntN("-3"), IntN(UnboundedCount), Sc("uint", "9223372036854775808"),
  FloatN("1.5"), FloatN("-0.25"), FloatN("0.30000000000000004"), BoolN(TRUE), BoolN(FALSE), NullN, TsN("2020-01-02"), IncN("f.raml"),
  SeqN(<<>>), SeqN(<<Str("b"), Str("a")>>), SeqN(<<IntN("2"), IntN("-1")>>),
  SeqN(<<Str("a"), IntN("1")>>), SeqN(<<FloatN("0.5"), IntN("1")>>), SeqN(<<BoolN(FALSE), BoolN(TRUE)>>),
  SeqN(<<TsN("2020-01-02"), Str("2021-03-04")>>), SeqN(<<NullN>>), SeqN(<<SeqN(<<Str("x")>>), M1("k", NullN)>>),
  MapN(<<>>), M1("a", Str("string")), M1("value", IntN("1")), M2("b", NullN, "a", IntN("7")),
  M1("a", M1("type", Str("integer"))), MapN(<<IntN("1"), Str("x")>>), M2("name", Str("n"), "wrapped", BoolN(TRUE)) >>

AllKeys == <<"displayName", "description", "required", "default", "enum", "uniqueItems", "minItems",
  "maxItems", "items", "format", "fileTypes", "minLength", "maxLength", "minimum", "maximum",
  "multipleOf", "properties", "minProperties", "maxProperties", "additionalProperties",
  "discriminator", "discriminatorValue", "pattern", "facets", "xml", "example", "examples",
  "(note)", "x-extra", "value", "strict">>

Exprs == <<Str("any"), Str("array"), Str("boolean"), Str("date-only"), Str("datetime"), Str("datetime-only"),
  Str("file"), Str("integer"), Str("nil"), Str("number"), Str("object"), Str("string"), Str("time-only"),
  Str("Person"), Str("Cat | Dog"), IncN("lib/x.raml")>>

(* The type key, in either spelling, before or behind the entries. *)
Long(variant, expr, entries) ==
  LET te == [k |-> Str(IF variant % 2 = 0 THEN "type" ELSE "schema"), v |-> expr]
  IN  MapOf(IF (variant \div 2) % 2 = 0 THEN <<te>> \o entries ELSE entries \o <<te>>)
E1(k, v) == [k |-> Str(k), v |-> v]

(* One good value, different from the default, per kind and key. *)
Good(kind, key) ==
  IF key \in FacetKeys[kind] THEN
    LET fc == FacetOf[kind][key]
        one == CASE fc.form = "text" -> Str("some text") [] fc.form = "flag" -> BoolN(fc.def # <<BoolN(TRUE)>>)
                 [] fc.form = "count" -> IntN("5") [] fc.form = "int" -> IntN("-42")
                 [] fc.form = "num" -> FloatN("2.5") [] fc.form = "date" -> Str("2020-05-06")
                 [] fc.form = "raw" -> M1("deep", SeqN(<<IntN("1"), NullN>>))
                 [] OTHER -> SeqN(<<IntN("1"), Str("two")>>)
    IN  IF fc.list THEN SeqN(<<one>>) ELSE one
  ELSE CASE key = "items" -> M2("type", Str("integer"), "minimum", IntN("1"))
         [] key = "properties" -> M2("p", Str("integer"), "q", M2("type", Str("P"), "required", BoolN(FALSE)))
         [] key = "required" -> BoolN(FALSE)
         [] key = "facets" -> M1("fa", M1("inner", M1("type", Str("number"))))
         [] key = "xml" -> M2("name", Str("n"), "other", IntN("1"))
         [] key = "example" -> CASE ExampleForm[kind] = "flag" -> BoolN(FALSE) [] ExampleForm[kind] = "int" -> IntN("9")
                                 [] ExampleForm[kind] = "num" -> IntN("9") [] ExampleForm[kind] = "rawlist" -> SeqN(<<NullN>>)
                                 [] OTHER -> Str("ex")
         [] key = "examples" -> IF kind = "array" THEN M1("one", SeqN(<<IntN("1")>>))
                                ELSE IF ExampleForm[kind] = "flag" THEN M1("one", M2("value", BoolN(TRUE), "strict", BoolN(FALSE)))
                                ELSE IF ExampleForm[kind] \in {"int", "num"} THEN M1("one", M1("value", IntN("3")))
                                ELSE M1("one", M2("value", Str("v"), "displayName", Str("d")))
         [] key = "(note)" -> M1("by", Str("me"))
         [] OTHER -> Str("x value")

KindOfExpr(e) == IF e.t = "inc" THEN "include" ELSE KindOf(e.v)

Rng(s) == {s[i] : i \in 1..Len(s)}

(* Slices of the catalogue, each cut into chunks which TLC's workers build in  *)
(* parallel.  They have a parameter so that TLC does not build them beforehand. *)
ShortExprs == Rng(Values) \cup Rng(Exprs) \cup {Str(e) : e \in BuiltIn}
          \cup {Str("string[]"), Str("lib.Type"), Str("(A | B)[]"), Str("|"), Str("!include"), Str("!include a b"),
                Str("multi"), Str("union"), Str("include"), Str("custom"), Str("String"), Str(" string"), IncN("a | b")}
Shorts(c) == ShortExprs
             \cup {Long(v, x, es) : v \in 0..3, x \in ShortExprs, es \in {<<>>, <<E1("pattern", Str("p")), E1("x", NullN)>>}}
(* Whether no file types and unrestricted file types differ is left open. *)
Unclear(k, v) == AllKeys[k] = "fileTypes" /\ v = SeqN(<<>>)
Singles(k) == { Long(e + k + v, Exprs[e], <<E1(AllKeys[k], Values[v])>>) : e \in 1..Len(Exprs), v \in {w \in 1..Len(Values) : ~Unclear(k, Values[w])} }
              \cup { MapOf(<<E1(AllKeys[k], Values[v])>>) : v \in 1..Len(Values) }
              \cup { MapOf(<<E1(AllKeys[k], Good("string", AllKeys[k])), E1("items", v), E1("properties", w)>>)
                       : v \in {Str("string"), NullN, MapN(<<>>)}, w \in {MapN(<<>>), M1("a", NullN), Str("x")} }
              \cup { MapOf(<<E1(kk, v), E1(AllKeys[k], Good("array", AllKeys[k]))>>)
                       : kk \in {"items", "properties"}, v \in {Str("string"), M1("a", NullN)} }
Doubles(i) ==
  UNION { { Long(e + i + 2 * j, Exprs[e], <<E1(AllKeys[i], Good(KindOfExpr(Exprs[e]), AllKeys[i])),
                                            E1(AllKeys[j], Good(KindOfExpr(Exprs[e]), AllKeys[j]))>>)
              : j \in (1..Len(AllKeys)) \ {i} } : e \in 1..Len(Exprs) }
(* Two facets a kind has, with several values each: bounds in either order,    *)
(* values that are not sorted, words with a meaning of their own.              *)
Meanings(key) == CASE key = "fileTypes" -> {Str("*/*")} [] key = "format" -> {Str(w) : w \in {"int", "int8", "int16", "int32", "int64", "long", "float", "double", "rfc3339", "rfc2616"}} [] OTHER -> {}
ValuesFor(kind, key) ==
  IF key \in FacetKeys[kind] THEN
    LET fc == FacetOf[kind][key]
        ones == CASE fc.form = "text" -> <<Str("some text"), Str(" two\nlines\n\n"), Str("")>> [] fc.form = "flag" -> <<BoolN(TRUE), BoolN(FALSE)>>
                  [] fc.form = "count" -> <<IntN("9"), IntN("1"), IntN("0")>> [] fc.form = "int" -> <<IntN("9"), IntN("-1"), IntN("0")>>
                  [] fc.form = "num" -> <<FloatN("9.5"), IntN("-1"), IntN("0")>> [] fc.form = "date" -> <<Str("2020-05-06"), Str("2001-05-06")>>
                  [] fc.form = "raw" -> <<Str("z"), M1("deep", SeqN(<<IntN("1"), NullN>>)), NullN>>
                  [] OTHER -> <<SeqN(<<IntN("1"), Str("two")>>), SeqN(<<>>)>>
    IN  IF fc.list THEN {SeqN(<<ones[1], ones[2]>>), SeqN(<<ones[2], ones[1], ones[2]>>)} \cup {SeqN(<<w>>) : w \in Meanings(key)}
        ELSE Rng(ones) \cup Meanings(key)
  ELSE {Good(kind, key)}
Pairings(i) ==
  UNION { LET k == KindOfExpr(Exprs[e]) IN
          IF i > Len(FacetList[k]) THEN {}
          ELSE UNION { { Long(i + j, Exprs[e], <<E1(FacetList[k][i].k, v), E1(FacetList[k][j].k, w)>>)
                           : v \in ValuesFor(k, FacetList[k][i].k), w \in ValuesFor(k, FacetList[k][j].k) }
                       : j \in (1..Len(FacetList[k])) \ {i} }
          : e \in 1..Len(Exprs) }
(* Everything at once, and everything but one. *)
FullOf(kind, expr, keys, variant) == Long(variant, expr, [i \in 1..Len(keys) |-> E1(keys[i], Good(kind, keys[i]))])
Fulls(e) == { FullOf(KindOfExpr(Exprs[e]), Exprs[e], ks, v) : v \in {e % 4, (e + 1) % 4},
              ks \in {AllKeys, Reverse(AllKeys)} \cup {SelectSeq(AllKeys, LAMBDA k : k # AllKeys[i]) : i \in 1..Len(AllKeys)} }

(* Examples in every form. *)
ExampleEntries == <<E1("displayName", Str("d n")), E1("description", Str("text")), E1("strict", BoolN(FALSE)),
  E1("strict", BoolN(TRUE)), E1("(note)", M1("by", NullN)), E1("(b)", MapN(<<>>)), E1("x-extra", SeqN(<<NullN>>)),
  [k |-> IntN("404"), v |-> Str("n")], E1("example", Str("e")), E1("type", Str("t")),
  E1("displayName", IntN("1")), E1("description", NullN), E1("strict", Str("true")), E1("(note)", Str("x")), E1("(note)", NullN)>>
GoodValue(kind) == Good(kind, "example")
ExampleNodes(kind) ==
     Rng(Values)
  \cup { MapOf(<<E1("value", v)>>) : v \in Rng(Values) }
  \cup { MapOf(<<E1("value", GoodValue(kind)), e>>) : e \in Rng(ExampleEntries) }
  \cup { MapOf(<<e, E1("value", GoodValue(kind))>>) : e \in Rng(ExampleEntries) }
  \cup { MapOf(<<e>>) : e \in Rng(ExampleEntries) }
  \cup { MapOf(<<ExampleEntries[i], E1("value", GoodValue(kind)), ExampleEntries[j]>>) : i \in 1..9, j \in {2, 3, 5, 6, 7} }
ExampleKinds == {e \in Rng(Exprs) : Extended(KindOfExpr(e))}
ExampleDefs(x) ==
     { MapOf(<<E1("type", x), E1("example", n)>>) : n \in ExampleNodes(KindOfExpr(x)) }
  \cup { MapOf(<<E1("type", x), E1("examples", M1("only", n))>>) : n \in ExampleNodes(KindOfExpr(x)) }
  \cup { MapOf(<<E1("examples", MapN(<<Str("z"), GoodValue(KindOfExpr(x)), Str("y"), n, Str("a"), GoodValue(KindOfExpr(x))>>)), E1("type", x)>>)
           : n \in { MapOf(<<E1("value", GoodValue(KindOfExpr(x))), e>>) : e \in Rng(ExampleEntries) } }
Examples(e) == IF Extended(KindOfExpr(Exprs[e])) THEN ExampleDefs(Exprs[e]) ELSE {}

(* XML hints. *)
XmlEntries == { E1(XmlParts[i].k, v) : i \in 1..Len(XmlParts), v \in Rng(Values) }
              \cup { E1("x", NullN), E1("(note)", Str("a")), [k |-> IntN("1"), v |-> IntN("2")] }
GoodXml == <<E1("attribute", BoolN(TRUE)), E1("attribute", BoolN(FALSE)), E1("wrapped", BoolN(TRUE)), E1("wrapped", BoolN(FALSE)),
  E1("name", Str("n")), E1("namespace", Str("urn:x")), E1("prefix", Str("p")), E1("zz", M1("a", NullN)), E1("aa", Str("q"))>>
XmlNodes(c) == Rng(Values) \cup { MapOf(<<e>>) : e \in XmlEntries }
            \cup { MapOf(<<GoodXml[i], GoodXml[j]>>) : i \in 1..Len(GoodXml), j \in 1..Len(GoodXml) }
            \cup { MapOf(<<GoodXml[i], GoodXml[3], GoodXml[j], GoodXml[8]>>) : i \in {1, 5, 9}, j \in {6, 7} }
DistinctKeys(n) == n.t # "map" \/ Cardinality({Pairs(n)[i].k.v : i \in 1..Len(Pairs(n))}) = Len(Pairs(n))
Xmls(c) == { MapOf(<<E1("type", x), E1("xml", n)>>) : x \in {Str("string"), Str("object"), Str("Cat | Dog"), Str("array")},
              n \in {m \in XmlNodes(c) : DistinctKeys(m)} }
      \cup { MapOf(<<E1("type", x), E1("xml", n)>>) : x \in ExampleKinds,
              n \in {MapN(<<>>), MapOf(GoodXml), MapOf(<<GoodXml[2], GoodXml[3], GoodXml[7], GoodXml[8]>>)} }

(* Structures: types within types. *)
Inner == { Str("integer"), NullN, Str("A | B"), Str("nil"), IncN("i.raml"), SeqN(<<Str("a")>>), IntN("1"), MapN(<<>>),
           M2("type", Str("number"), "minimum", IntN("3")), M2("type", Str("string"), "minLength", Str("x")),
           M2("type", Str("date-only"), "required", BoolN(FALSE)), M1("items", Str("string")), M1("properties", M1("deep", M2("type", Str("nil"), "e", NullN))),
           M2("type", IncN("t.raml"), "required", BoolN(FALSE)), M2("(note)", M1("a", NullN), "zz", IntN("1")) }
Structures(c) ==
     { MapOf(<<E1("type", Str("array")), E1("items", i)>>) : i \in Inner }
  \cup { MapOf(<<E1("properties", M2("b", i, "a?", j))>>) : i \in Inner, j \in Inner }
  \cup { MapOf(<<E1("type", Str("object")), E1("properties", M1("p", M1("items", M1("items", i)))), E1("minProperties", IntN("1"))>>) : i \in Inner }
  \cup { MapOf(<<E1("type", x), E1("facets", n)>>) : x \in {Str("string"), Str("object"), Str("Person")},
            n \in { M2("f2", M2("z", i, "y", j), "f1", M1("x", j)) : i \in Inner, j \in {Str("integer"), M2("type", Str("number"), "minimum", IntN("3")), MapN(<<>>), IntN("1")} } }
  \cup { MapOf(<<E1("properties", MapN(<<IntN("1"), Str("string")>>))>>), MapOf(<<E1("type", Str("string")), E1("facets", M1("f", MapN(<<BoolN(TRUE), Str("string")>>)))>>) }

Chunks == CASE IOEnv.SLICE \in {"singles", "doubles"} -> Len(AllKeys)
            [] IOEnv.SLICE \in {"fulls", "examples"} -> Len(Exprs)
            [] IOEnv.SLICE = "pairs" -> 9
            [] OTHER -> 1
Chunk(i) == CASE IOEnv.SLICE = "shorts" -> Shorts(i)
              [] IOEnv.SLICE = "singles" -> Singles(i)
              [] IOEnv.SLICE = "doubles" -> Doubles(i)
              [] IOEnv.SLICE = "pairs" -> Pairings(i)
              [] IOEnv.SLICE = "fulls" -> Fulls(i)
              [] IOEnv.SLICE = "examples" -> Examples(i)
              [] IOEnv.SLICE = "xml" -> Xmls(i)
              [] IOEnv.SLICE = "structures" -> Structures(i)
NoDefinitions == {}

MCInit == /\ \E i \in 1..Chunks : def = Sc("chunk", ToString(i)) /\ rest = <<i>>
          /\ type = <<>> /\ phase = "pick"
Pick == /\ phase = "pick"
        /\ \E d \in {x \in Chunk(rest[1]) : DistinctKeys(x)} : def' = d
        /\ rest' = <<>> /\ phase' = "new" /\ UNCHANGED type
MCPNext == \/ Pick
           \/ /\ PNext
              /\ phase' \in {"accepted", "rejected"} =>
                   PrintT("C " \o ToJson([def |-> def, type |-> type',
                                          out |-> IF type' = <<>> THEN <<>> ELSE <<RenderType(type'[1])>>]))
MCPSpec == MCInit /\ [][MCPNext]_pvars
=============================================================================
