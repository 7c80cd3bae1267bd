------------------------------- MODULE Builder --------------------------------
(* The builder interface.  Every object - a type, an example, XML hints, a     *)
(* documentation entry, an API document, a library - is a set of registers.    *)
(* A register is a single part, or a collection whose entries can also be put  *)
(* and deleted one by one through its accessor.                                *)
(*                                                                             *)
(* An object is [c: class, o: value]; values are those of RamlTypes, RamlDocs. *)
(* The values registers are set to are given as the trees that denote them.    *)
EXTENDS RamlDocs

Objects == {"type", "example", "xml", "entry", "api", "lib"}

(* Collections, by class; the field they are held in. *)
Collections(c) ==
  CASE c = "type"    -> {"annotations", "extraFacets", "facetDefinitions", "examples", "properties"}
    [] c = "example" -> {"annotations", "extraFacets"}
    [] c = "xml"     -> {}
    [] c = "entry"   -> {"extraFacets"}
    [] c = "api"     -> {"annotations", "extraFacets", "uses", "types", "schemas", "resources"} \cup ApiRaws
    [] c = "lib"     -> {"annotations", "extraFacets", "uses", "types", "schemas"} \cup LibRaws
FieldOf(r) == CASE r = "annotations" -> "annot" [] r = "extraFacets" -> "extra" [] r = "facetDefinitions" -> "facets"
                [] r = "examples" -> "exs" [] r = "properties" -> "props" [] r = "schemas" -> "types" [] OTHER -> r

(* Facets, flags and texts held in the field f. *)
PartList(c, o) ==
  CASE c = "type"    -> FacetList[o.kind]
    [] c = "example" -> ExampleParts
    [] c = "xml"     -> XmlParts
    [] c = "entry"   -> <<>>
    [] OTHER         -> PartsOf(c)
PartKeysOf(c, o) == {PartList(c, o)[i].k : i \in 1..Len(PartList(c, o))}
PartNamed(c, o, r) == CHOOSE p \in {PartList(c, o)[i] : i \in 1..Len(PartList(c, o))} : p.k = r

(* The remaining registers. *)
Others(c, o) ==
  CASE c = "type"    -> {"type", "required", "xml", "example"} \cup (IF o.kind = "array" THEN {"items"} ELSE {})
    [] c = "example" -> {"value"}
    [] c = "entry"   -> {"title", "content"}
    [] c = "api"     -> {"title", "documentation"}
    [] OTHER         -> {}

CollectionsOf(c, o) == IF c = "type" /\ o.kind # "object" THEN Collections(c) \ {"properties"} ELSE Collections(c)
Registers(c, o) == PartKeysOf(c, o) \cup CollectionsOf(c, o) \cup Others(c, o)

(* Schemas is another name of Types. *)
Canonical(r) == IF r = "schemas" THEN "types" ELSE r

(* What the accessor of a register reports. *)
Get(c, o, r) ==
  IF r \in PartKeysOf(c, o) THEN PartOf(o.f, PartNamed(c, o, r))
  ELSE IF r \in Collections(c) THEN
         IF c \in {"api", "lib"} /\ r \in RawsOf(c) THEN (IF r \in DOMAIN o.raws THEN o.raws[r] ELSE <<>>)
         ELSE o[FieldOf(r)]
  ELSE CASE r = "type" -> o.type [] r = "required" -> o.req [] r = "xml" -> o.xml [] r = "items" -> o.items
         [] r = "example" -> o.ex [] r = "value" -> o.val [] r = "title" -> o.title
         [] r = "content" -> <<o.content, o.inc>> [] r = "documentation" -> o.docs

SetColl(c, o, r, s) ==
  IF c \in {"api", "lib"} /\ r \in RawsOf(c) THEN [o EXCEPT !.raws = SetRaw(o.raws, r, s)]
  ELSE [o EXCEPT ![FieldOf(r)] = s]

(* The entry of a collection that a tree denotes; <<>> if it denotes none. *)
Elem(c, o, r, d) ==
  CASE r = "annotations" -> IF AllTextKeys(d) THEN <<d>> ELSE <<>>
    [] r = "facetDefinitions" -> ParseTypes(d)
    [] r = "examples" -> ParseExample(o.kind, d)
    [] r \in {"properties", "types", "schemas"} -> ParseType(d)
    [] r = "uses" -> IF d.t = "str" THEN <<d>> ELSE <<>>
    [] OTHER -> <<d>>
CollectionIn(c, o, r, d) ==
  FoldLeft(LAMBDA s, e : PutIn(s, e.k.v, Elem(c, o, r, e.v)[1]), <<>>, Pairs(d))

(* Parts that have no value of their own can only be reset to what a new       *)
(* object has.                                                                 *)
HasSetter(c, o, r) ==
  CASE c \in {"example", "entry"} -> r # "extraFacets"
    [] c \in {"api", "lib"} -> r \notin {"securitySchemes", "annotationTypes", "baseUriParameters", "resources", "extraFacets"}
    [] OTHER -> TRUE
HasUnset(c, o, r) ==
  /\ HasSetter(c, o, r)
  /\ r \notin {"type", "required", "strict", "title", "content"}
  /\ ~(c = "type" /\ r \in {"uniqueItems", "minItems", "maxItems", "additionalProperties", "minLength"})
  /\ ~(c = "type" /\ o.kind = "file" /\ r = "maxLength")
(* Setters that take a map or a list can be given none. *)
TakesNil(c, o, r) ==
  /\ HasSetter(c, o, r)
  /\ \/ r \in Collections(c) \/ r = "documentation"
     \/ r \in PartKeysOf(c, o) /\ PartNamed(c, o, r).list

(* Operations: [op: "set", r, d]; [op: "unset" or "nil", r];                   *)
(* [op: "put", r, k, d]; [op: "del", r, k].                                    *)
UnsetR(c, o, r) ==
  IF r \in PartKeysOf(c, o) THEN [o EXCEPT !.f = Drop(o.f, r)]
  ELSE IF r \in Collections(c) THEN SetColl(c, o, r, <<>>)
  ELSE CASE r = "xml" -> [o EXCEPT !.xml = <<>>] [] r = "items" -> [o EXCEPT !.items = <<>>]
         [] r = "example" -> [o EXCEPT !.ex = <<>>] [] r = "value" -> [o EXCEPT !.val = <<>>]
         [] r = "documentation" -> [o EXCEPT !.docs = <<>>]
SetR(c, o, r, d) ==
  IF r \in PartKeysOf(c, o) THEN [o EXCEPT !.f = SetPart(o.f, PartNamed(c, o, r), ReadFacet(PartNamed(c, o, r), d)[1])]
  ELSE IF r \in Collections(c) THEN SetColl(c, o, r, CollectionIn(c, o, r, d))
  ELSE CASE r = "type" -> [o EXCEPT !.type = d.v] [] r = "required" -> [o EXCEPT !.req = (d.v = "true")]
         [] r = "xml" -> [o EXCEPT !.xml = ParseXml(d)] [] r = "items" -> [o EXCEPT !.items = ParseType(d)]
         [] r = "example" -> [o EXCEPT !.ex = ParseExample(o.kind, d)]
         [] r = "value" -> [o EXCEPT !.val = ReadOne(ExampleForm[o.kind], d)]
         [] r = "title" -> [o EXCEPT !.title = d.v]
         [] r = "content" -> [o EXCEPT !.content = d.v, !.inc = FALSE]
         [] r = "documentation" -> [o EXCEPT !.docs = ParseDocs(d)[1]]

Apply(c, o, op) ==
  CASE op.op = "set" -> SetR(c, o, op.r, op.d)
    [] op.op \in {"unset", "nil"} -> UnsetR(c, o, op.r)
    [] op.op = "put" -> SetColl(c, o, op.r, PutIn(Get(c, o, op.r), op.k, Elem(c, o, op.r, op.d)[1]))
    [] op.op = "del" -> SetColl(c, o, op.r, Without(Get(c, o, op.r), op.k))

(* The tree an object is written as, and the object a tree denotes. *)
RenderObject(c, o) ==
  CASE c = "type" -> RenderType(o) [] c = "example" -> RenderExample(o.kind, o) [] c = "xml" -> RenderXml(o)
    [] c = "entry" -> RenderDoc(o) [] OTHER -> RenderDocument(o)
ParseObject(c, kind, d) ==
  CASE c = "type" -> ParseType(d)
    [] c = "example" -> LET e == ParseExample(kind, d) IN IF e = <<>> THEN <<>> ELSE <<e[1] @@ [kind |-> kind]>>
    [] c = "xml" -> ParseXml(d) [] c = "entry" -> ParseDoc(d) [] OTHER -> ParseDocument(c, d)
=============================================================================
