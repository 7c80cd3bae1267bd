------------------------------ MODULE RamlTypes ------------------------------
(* RAML type definitions, examples, XML hints and documentation entries: what  *)
(* a YAML tree means (Parse...), and which tree a value is written as          *)
(* (Render...).  Parsing returns <<>> for a rejected tree and <<value>>        *)
(* otherwise.                                                                  *)
EXTENDS Yaml

Kinds == {"any", "array", "boolean", "custom", "date-only", "datetime", "datetime-only",
          "file", "include", "integer", "nil", "number", "object", "string", "time-only",
          "union"}
BuiltIn == Kinds \ {"custom", "include", "union"}
(* Kinds with annotations, names, examples and so on; the others are just names. *)
Extended(kind) == kind \notin {"include", "nil"}
(* Kinds whose values have no fixed form. *)
Untyped == {"any", "custom", "file", "object", "union"}

None == [k \in {} |-> NullN]
UnboundedCount == "2147483647"

(******************************* value forms *******************************)
(* The forms a facet value can be required to have. *)
IsCount(n) == n.t \in {"int", "uint"} /\ ~HasPrefix(n.v, "-")

ReadOne(form, n) ==
  CASE form = "text"    -> IF n.t = "str" THEN <<n>> ELSE <<>>
    [] form = "flag"    -> IF n.t = "bool" THEN <<n>> ELSE <<>>
    [] form = "count"   -> IF IsCount(n) THEN <<n>> ELSE <<>>
    [] form = "int"     -> IF n.t = "int" THEN <<n>> ELSE <<>>
    [] form = "num"     -> IF n.t \in {"int", "float"} THEN <<NumN(n.v)>> ELSE <<>>
    [] form = "date"    -> IF n.t \in {"str", "ts"} THEN <<Str(n.v)>> ELSE <<>>
    [] form = "raw"     -> <<n>>
    [] form = "rawlist" -> IF n.t = "seq" THEN <<n>> ELSE <<>>
    [] OTHER            -> <<>>

ReadList(form, n) ==
  IF n.t # "seq" THEN <<>>
  ELSE LET rs == [i \in 1..Len(n.c) |-> ReadOne(form, n.c[i])]
       IN  IF \E i \in 1..Len(rs) : rs[i] = <<>> THEN <<>>
           ELSE <<SeqN([i \in 1..Len(rs) |-> rs[i][1]])>>

(* A facet: its key, the form of its value (of its elements, if it is a list)  *)
(* and the value it has when it is not declared, <<>> if it is absent then.    *)
F(k, form)         == [k |-> k, form |-> form, list |-> FALSE, def |-> <<>>]
FD(k, form, def)   == [k |-> k, form |-> form, list |-> FALSE, def |-> <<def>>]
FL(k, form)        == [k |-> k, form |-> form, list |-> TRUE, def |-> <<SeqN(<<>>)>>]

ReadFacet(fc, n) == IF fc.list THEN ReadList(fc.form, n) ELSE ReadOne(fc.form, n)

OwnFacets(kind) ==
  CASE kind \in {"any", "custom", "union"} -> <<F("default", "raw"), FL("enum", "raw")>>
    [] kind = "array"    -> <<F("default", "rawlist"), FL("enum", "raw"),
                              FD("uniqueItems", "flag", BoolN(FALSE)),
                              FD("minItems", "count", IntN("0")),
                              FD("maxItems", "count", IntN(UnboundedCount))>>
    [] kind = "boolean"  -> <<F("default", "flag"), FL("enum", "flag")>>
    [] kind \in {"date-only", "datetime-only"} -> <<F("default", "date"), FL("enum", "date")>>
    [] kind = "datetime" -> <<F("default", "date"), FL("enum", "date"), F("format", "text")>>
    [] kind = "file"     -> <<F("default", "raw"), FL("enum", "raw"), FL("fileTypes", "text"),
                              FD("minLength", "count", IntN("0")),
                              FD("maxLength", "count", IntN(UnboundedCount))>>
    [] kind = "integer"  -> <<F("default", "int"), FL("enum", "int"), F("minimum", "int"),
                              F("maximum", "int"), F("format", "text"), F("multipleOf", "num")>>
    [] kind = "number"   -> <<F("default", "num"), FL("enum", "num"), F("minimum", "num"),
                              F("maximum", "num"), F("format", "text"), F("multipleOf", "num")>>
    [] kind = "object"   -> <<F("default", "raw"), FL("enum", "raw"),
                              F("minProperties", "count"), F("maxProperties", "count"),
                              FD("additionalProperties", "flag", BoolN(TRUE)),
                              F("discriminator", "text"), F("discriminatorValue", "raw")>>
    [] kind = "string"   -> <<F("default", "text"), FL("enum", "text"), F("pattern", "text"),
                              FD("minLength", "count", IntN("0")), F("maxLength", "count")>>
    [] kind = "time-only" -> <<F("default", "text"), FL("enum", "text")>>
    [] OTHER -> <<>>

FacetList == [kind \in Kinds |->
                IF Extended(kind)
                THEN <<F("displayName", "text"), F("description", "text")>> \o OwnFacets(kind)
                ELSE <<>>]
FacetKeys == [kind \in Kinds |-> {FacetList[kind][i].k : i \in 1..Len(FacetList[kind])}]
FacetOf   == [kind \in Kinds |->
                [k \in FacetKeys[kind] |->
                   LET i == CHOOSE i \in 1..Len(FacetList[kind]) : FacetList[kind][i].k = k
                   IN  FacetList[kind][i]]]

(* Sets a part in a record of parts; a part that has its default value again   *)
(* is not there.                                                               *)
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
SetPart(f, fc, n) == IF fc.def = <<n>> THEN Drop(f, fc.k) ELSE (fc.k :> n) @@ f
PartOf(f, fc) == IF fc.k \in DOMAIN f THEN <<f[fc.k]>> ELSE fc.def

(* Reads the part with the given key into the field f of a record. *)
ReadPart(fc, r, v) ==
  LET got == ReadFacet(fc, v)
  IN  IF got = <<>> THEN <<>> ELSE <<[r EXCEPT !.f = SetPart(r.f, fc, got[1])]>>

(* Rendering of the parts, in the order of a facet list. *)
RenderParts(fcs, f) ==
  LET set == SelectSeq(fcs, LAMBDA fc : fc.k \in DOMAIN f)
  IN  [i \in 1..Len(set) |-> [k |-> set[i].k, v |-> f[set[i].k]]]

(****************************** common pieces ******************************)
Fold(op(_, _), r, entries) ==
  FoldLeft(LAMBDA acc, e : IF acc = <<>> THEN <<>> ELSE op(acc[1], e), <<r>>, entries)

AllTextKeys(n) == n.t = "map" /\ \A i \in 1..(Len(n.c) \div 2) : n.c[2 * i - 1].t = "str"

(* A mapping with text keys to raw values, as a collection. *)
ReadMap(n) == IF AllTextKeys(n)
              THEN <<FoldLeft(LAMBDA s, e : PutIn(s, e.k.v, e.v), <<>>, Pairs(n))>>
              ELSE <<>>

IsAnnotation(k) == k.t = "str" /\ HasPrefix(k.v, "(")
(* Annotations are mappings with text keys. *)
PutAnnotation(r, k, v) ==
  IF AllTextKeys(v) THEN <<[r EXCEPT !.annot = PutIn(r.annot, k.v, v)]>> ELSE <<>>
PutExtra(r, k, v) == <<[r EXCEPT !.extra = PutIn(r.extra, k.v, v)]>>

HasKey(n, k) == n.t = "map" /\ \E i \in 1..(Len(n.c) \div 2) : n.c[2 * i - 1].v = k

(********************************* examples ********************************)
ExampleForm == [kind \in Kinds |->
  CASE kind \in Untyped -> "raw"
    [] kind = "array" -> "rawlist"
    [] kind = "boolean" -> "flag"
    [] kind \in {"date-only", "datetime", "datetime-only"} -> "date"
    [] kind = "integer" -> "int"
    [] kind = "number" -> "num"
    [] kind \in {"string", "time-only"} -> "text"
    [] OTHER -> "none"]

ExampleParts == <<F("displayName", "text"), F("description", "text"),
                  FD("strict", "flag", BoolN(TRUE))>>
ExamplePart(k) == CHOOSE p \in {ExampleParts[i] : i \in 1..3} : p.k = k

NewExample == [val |-> <<>>, f |-> None, annot |-> <<>>, extra |-> <<>>]

IsLong(kind, n) == n.t = "map" /\ (kind \in Untyped => HasKey(n, "value"))

AssignExample(kind, e, k, v) ==
  IF k.t # "str" THEN PutExtra(e, k, v)
  ELSE IF IsAnnotation(k) THEN PutAnnotation(e, k, v)
  ELSE IF k.v \in {"displayName", "description", "strict"} THEN ReadPart(ExamplePart(k.v), e, v)
  ELSE IF k.v = "value" THEN
    LET got == ReadOne(ExampleForm[kind], v)
    IN  IF got = <<>> THEN <<>> ELSE <<[e EXCEPT !.val = got]>>
  ELSE PutExtra(e, k, v)

ParseExample(kind, n) ==
  IF IsLong(kind, n)
  THEN Fold(LAMBDA e, p : AssignExample(kind, e, p.k, p.v), NewExample, Pairs(n))
  ELSE LET got == ReadOne(ExampleForm[kind], n)
       IN  IF got = <<>> THEN <<>> ELSE <<[NewExample EXCEPT !.val = got]>>

(* Whether the value alone reads back as this example. *)
IsBare(kind, e) == /\ e.val # <<>> /\ DOMAIN e.f = {} /\ e.annot = <<>> /\ e.extra = <<>>
                   /\ ~IsLong(kind, e.val[1])
RenderExample(kind, e) ==
  IF IsBare(kind, e) THEN e.val[1]
  ELSE TextMap(RenderParts(ExampleParts, e.f)
               \o (IF e.val = <<>> THEN <<>> ELSE <<[k |-> "value", v |-> e.val[1]]>>)
               \o e.annot \o e.extra)

ParseExamples(kind, n) ==
  IF ~AllTextKeys(n) THEN <<>>
  ELSE Fold(LAMBDA s, p : LET e == ParseExample(kind, p.v)
                          IN  IF e = <<>> THEN <<>> ELSE <<PutIn(s, p.k.v, e[1])>>,
            <<>>, Pairs(n))

(******************************** XML hints ********************************)
XmlParts == <<F("attribute", "flag"), F("wrapped", "flag"), F("name", "text"),
              F("namespace", "text"), F("prefix", "text")>>
XmlKeys  == {XmlParts[i].k : i \in 1..Len(XmlParts)}
XmlPart(k) == CHOOSE p \in {XmlParts[i] : i \in 1..Len(XmlParts)} : p.k = k

NewXml == [f |-> None, extra |-> <<>>]
ParseXml(n) ==
  IF n.t # "map" THEN <<>>
  ELSE Fold(LAMBDA x, p : IF p.k.v \in XmlKeys THEN ReadPart(XmlPart(p.k.v), x, p.v)
                          ELSE PutExtra(x, p.k, p.v),
            NewXml, Pairs(n))
RenderXml(x) == TextMap(RenderParts(XmlParts, x.f) \o x.extra)

(********************************** types **********************************)
(* kind   the kind; type the type expression                                  *)
(* req    whether a property of this type is required                         *)
(* f      the facets that are set, by key                                     *)
(* items  <<>> or <<type of the items>>, props the properties                 *)
(* annot, extra, facets, xml, ex, exs: annotations, unknown facets, facet     *)
(* declarations, XML hints, the example and the named examples                *)
NewType(kind, expr) ==
  [kind |-> kind, type |-> expr, req |-> TRUE, f |-> None, items |-> <<>>, props |-> <<>>,
   annot |-> <<>>, facets |-> <<>>, xml |-> <<>>, extra |-> <<>>, ex |-> <<>>, exs |-> <<>>]

IncludePrefix == "!include "

KindOf(expr) == IF expr \in BuiltIn THEN expr
                ELSE IF HasPrefix(expr, IncludePrefix) THEN "include"
                ELSE IF HasChar(expr, "|") THEN "union"
                ELSE "custom"
OfExpr(expr) == NewType(KindOf(expr), TrimPrefix(expr, IncludePrefix))

TypeKeys == {"type", "schema"}

(* The kind of a definition in long form, "" if it has no legal one. *)
KindOfMap(n) ==
  LET ps == Pairs(n)
      at == {i \in 1..Len(ps) : ps[i].k.v \in TypeKeys}
  IN  IF at # {} THEN
        LET i == CHOOSE i \in at : \A j \in at : i <= j
            v == ps[i].v
        IN  IF v.t = "str" THEN KindOf(v.v) ELSE IF v.t = "inc" THEN "include" ELSE ""
      ELSE IF HasKey(n, "properties") THEN "object"
      ELSE IF HasKey(n, "items") THEN "array"
      ELSE "string"

RECURSIVE ParseType(_), AssignType(_, _, _), ParseTypes(_), ParseTypeMaps(_)

AssignType(t, k, v) ==
  IF k.v \in FacetKeys[t.kind] THEN ReadPart(FacetOf[t.kind][k.v], t, v)
  ELSE IF k.v \in TypeKeys THEN
    IF v.t = "str" \/ (v.t = "inc" /\ t.kind = "include")
    THEN <<[t EXCEPT !.type = IF t.kind = "include" THEN TrimPrefix(v.v, IncludePrefix) ELSE v.v]>>
    ELSE <<>>
  ELSE IF k.v = "required" THEN
    IF v.t = "bool" THEN <<[t EXCEPT !.req = (v.v = "true")]>> ELSE <<>>
  ELSE IF t.kind = "array" /\ k.v = "items" THEN
    LET got == ParseType(v) IN IF got = <<>> THEN <<>> ELSE <<[t EXCEPT !.items = got]>>
  ELSE IF t.kind = "object" /\ k.v = "properties" THEN
    LET got == ParseTypes(v) IN IF got = <<>> THEN <<>> ELSE <<[t EXCEPT !.props = got[1]]>>
  ELSE IF ~Extended(t.kind) THEN PutExtra(t, k, v)
  ELSE IF k.v = "facets" THEN
    LET got == ParseTypeMaps(v) IN IF got = <<>> THEN <<>> ELSE <<[t EXCEPT !.facets = got[1]]>>
  ELSE IF k.v = "xml" THEN
    LET got == ParseXml(v) IN IF got = <<>> THEN <<>> ELSE <<[t EXCEPT !.xml = got]>>
  ELSE IF k.v = "example" THEN
    LET got == ParseExample(t.kind, v) IN IF got = <<>> THEN <<>> ELSE <<[t EXCEPT !.ex = got]>>
  ELSE IF k.v = "examples" THEN
    LET got == ParseExamples(t.kind, v) IN IF got = <<>> THEN <<>> ELSE <<[t EXCEPT !.exs = got[1]]>>
  ELSE IF IsAnnotation(k) THEN PutAnnotation(t, k, v)
  ELSE PutExtra(t, k, v)

ParseType(n) ==
  CASE n.t = "str"  -> <<OfExpr(n.v)>>
    [] n.t = "inc"  -> <<NewType("include", n.v)>>
    [] n.t = "null" -> <<NewType("string", "string")>>
    [] n.t = "map"  -> LET kind == KindOfMap(n)
                       IN  IF kind = "" THEN <<>>
                           ELSE Fold(LAMBDA t, p : AssignType(t, p.k, p.v), NewType(kind, kind), Pairs(n))
    [] OTHER -> <<>>

ParseTypes(n) ==
  IF ~AllTextKeys(n) THEN <<>>
  ELSE Fold(LAMBDA s, p : LET t == ParseType(p.v)
                          IN  IF t = <<>> THEN <<>> ELSE <<PutIn(s, p.k.v, t[1])>>,
            <<>>, Pairs(n))

(* Facet declarations are mappings of types. *)
ParseTypeMaps(n) ==
  IF ~AllTextKeys(n) THEN <<>>
  ELSE Fold(LAMBDA s, p : LET ts == ParseTypes(p.v)
                          IN  IF ts = <<>> THEN <<>> ELSE <<PutIn(s, p.k.v, ts[1])>>,
            <<>>, Pairs(n))

(* A tree as it would stand in a document: numbers have a definite form. *)
RECURSIVE Plain(_)
Plain(n) == IF n.t = "num" THEN Sc("float", n.v)
            ELSE Node(n.t, n.v, [i \in 1..Len(n.c) |-> Plain(n.c[i])])

Entry(k, v) == <<[k |-> k, v |-> v]>>
Unless(empty, entries) == IF empty THEN <<>> ELSE entries

RECURSIVE RenderType(_)
RenderTypes(s) == TextMap([i \in 1..Len(s) |-> [k |-> s[i].k, v |-> RenderType(s[i].v)]])

(* The entries of the long form. *)
TypeEntries(t) ==
     Entry("type", IF t.kind = "include" THEN IncN(t.type) ELSE Str(t.type))
  \o Unless(t.req, Entry("required", BoolN(FALSE)))
  \o RenderParts(FacetList[t.kind], t.f)
  \o Unless(t.items = <<>>, Entry("items", RenderType(t.items[1])))
  \o Unless(t.props = <<>>, Entry("properties", RenderTypes(t.props)))
  \o t.annot
  \o Unless(t.facets = <<>>,
            Entry("facets", TextMap([i \in 1..Len(t.facets) |->
                                       [k |-> t.facets[i].k, v |-> RenderTypes(t.facets[i].v)]])))
  \o Unless(t.xml = <<>>, Entry("xml", RenderXml(t.xml[1])))
  \o t.extra
  \o Unless(t.ex = <<>>, Entry("example", RenderExample(t.kind, t.ex[1])))
  \o Unless(t.exs = <<>>,
            Entry("examples", TextMap([i \in 1..Len(t.exs) |->
                                         [k |-> t.exs[i].k, v |-> RenderExample(t.kind, t.exs[i].v)]])))

RenderType(t) ==
  LET es == TypeEntries(t)
  IN  IF Len(es) = 1 THEN es[1].v ELSE TextMap(es)
=============================================================================
