------------------------------ MODULE RamlDocs -------------------------------
(* API documents, libraries and documentation entries.                        *)
EXTENDS RamlTypes

(************************** documentation entries **************************)
NewDoc == [title |-> "", content |-> "", inc |-> FALSE, extra |-> <<>>]

AssignDoc(d, k, v) ==
  IF k.v = "title" THEN IF v.t = "str" THEN <<[d EXCEPT !.title = v.v]>> ELSE <<>>
  ELSE IF k.v = "content" THEN
    IF v.t \in {"str", "inc"} THEN <<[d EXCEPT !.content = v.v, !.inc = (v.t = "inc")]>> ELSE <<>>
  ELSE PutExtra(d, k, v)

ParseDoc(n) == IF n.t # "map" THEN <<>>
               ELSE Fold(LAMBDA d, p : AssignDoc(d, p.k, p.v), NewDoc, Pairs(n))
RenderDoc(d) == TextMap(Entry("title", Str(d.title))
                        \o Entry("content", IF d.inc THEN IncN(d.content) ELSE Str(d.content))
                        \o d.extra)

ParseDocs(n) ==
  IF n.t # "seq" THEN <<>>
  ELSE FoldLeft(LAMBDA acc, x : IF acc = <<>> THEN <<>>
                                ELSE LET d == ParseDoc(x)
                                     IN  IF d = <<>> THEN <<>> ELSE <<Append(acc[1], d[1])>>,
                << <<>> >>, n.c)

(******************************** documents ********************************)
ApiTexts   == <<F("version", "text"), F("baseUri", "text"), F("description", "text")>>
ApiLists   == <<FL("protocols", "text"), FL("mediaType", "text"), FL("securedBy", "text")>>
ApiRaws    == {"securitySchemes", "baseUriParameters", "traits", "annotationTypes", "resourceTypes"}
LibTexts   == <<F("usage", "text")>>
LibRaws    == {"securitySchemes", "traits", "annotationTypes", "resourceTypes"}
TypesKeys  == {"types", "schemas"}

(* A document: its class ("api" or "lib"), the texts and lists that are set,   *)
(* its raw sections as collections (those that are not empty), and the rest.   *)
NewDocument(class) ==
  [class |-> class, title |-> "", f |-> None, raws |-> None, uses |-> <<>>, types |-> <<>>,
   docs |-> <<>>, resources |-> <<>>, annot |-> <<>>, extra |-> <<>>]

PartsOf(class) == IF class = "api" THEN ApiTexts \o ApiLists ELSE LibTexts
RawsOf(class)  == IF class = "api" THEN ApiRaws ELSE LibRaws
PartKeys(class) == {PartsOf(class)[i].k : i \in 1..Len(PartsOf(class))}
DocPart(class, k) == CHOOSE p \in {PartsOf(class)[i] : i \in 1..Len(PartsOf(class))} : p.k = k

SetRaw(raws, k, s) == IF s = <<>> THEN Drop(raws, k) ELSE (k :> s) @@ raws

(* A mapping of texts. *)
ReadTexts(n) == IF AllTextKeys(n) /\ \A i \in 1..(Len(n.c) \div 2) : n.c[2 * i].t = "str"
                THEN ReadMap(n) ELSE <<>>

AssignSection(d, k, v) ==
  IF k.v \in PartKeys(d.class) THEN
    IF k.v = "mediaType" /\ v.t = "str"
    THEN ReadPart(DocPart(d.class, k.v), d, SeqN(<<v>>))
    ELSE ReadPart(DocPart(d.class, k.v), d, v)
  ELSE IF d.class = "api" /\ k.v = "title" THEN
    IF v.t = "str" THEN <<[d EXCEPT !.title = v.v]>> ELSE <<>>
  ELSE IF d.class = "api" /\ k.v = "documentation" THEN
    LET got == ParseDocs(v) IN IF got = <<>> THEN <<>> ELSE <<[d EXCEPT !.docs = got[1]]>>
  ELSE IF k.v \in RawsOf(d.class) THEN
    LET got == ReadMap(v) IN IF got = <<>> THEN <<>> ELSE <<[d EXCEPT !.raws = SetRaw(d.raws, k.v, got[1])]>>
  ELSE IF k.v = "uses" THEN
    LET got == ReadTexts(v) IN IF got = <<>> THEN <<>> ELSE <<[d EXCEPT !.uses = got[1]]>>
  ELSE IF k.v \in TypesKeys THEN
    LET got == ParseTypes(v) IN IF got = <<>> THEN <<>> ELSE <<[d EXCEPT !.types = got[1]]>>
  ELSE IF IsAnnotation(k) THEN PutAnnotation(d, k, v)
  ELSE IF d.class = "api" /\ HasPrefix(k.v, "/") THEN <<[d EXCEPT !.resources = PutIn(d.resources, k.v, v)]>>
  ELSE PutExtra(d, k, v)

(* Keys that are not texts are unknown facets at the root of an API document. *)
AssignRoot(d, k, v) == IF d.class = "api" /\ k.t # "str" THEN PutExtra(d, k, v)
                       ELSE AssignSection(d, k, v)

(* "none" is a text without any document. *)
ParseDocument(class, n) ==
  CASE n.t = "map"  -> Fold(LAMBDA d, p : AssignRoot(d, p.k, p.v), NewDocument(class), Pairs(n))
    [] n.t = "null" -> <<NewDocument(class)>>
    [] n.t = "none" -> IF class = "lib" THEN <<NewDocument(class)>> ELSE <<>>
    [] OTHER -> <<>>

RenderDocument(d) ==
  TextMap(Unless(d.class = "lib", Entry("title", Str(d.title)))
       \o RenderParts(PartsOf(d.class), d.f)
       \o Unless(d.docs = <<>>, Entry("documentation", SeqN([i \in 1..Len(d.docs) |-> RenderDoc(d.docs[i])])))
       \o Unless(d.uses = <<>>, Entry("uses", TextMap(d.uses)))
       \o [i \in 1..Cardinality(DOMAIN d.raws) |->
             LET k == SetToSeq(DOMAIN d.raws)[i] IN [k |-> k, v |-> TextMap(d.raws[k])]]
       \o Unless(d.types = <<>>, Entry("types", RenderTypes(d.types)))
       \o d.annot \o d.resources \o d.extra)
=============================================================================
