----------------------------- MODULE TypeParser ------------------------------
(* The reader of type definitions as a transition system: it settles the kind  *)
(* of a definition, then takes in one entry at a time, and stops at the first  *)
(* entry it cannot accept.                                                     *)
EXTENDS RamlTypes

CONSTANT Definitions     \* the definitions to read (trees)

VARIABLES def,           \* the definition being read
          rest,          \* the entries that have not been taken in
          type,          \* <<>> or <<the type read so far>>
          phase          \* "new", "reading", "accepted", "rejected"

pvars == <<def, rest, type, phase>>

PInit == /\ def \in Definitions
         /\ rest = <<>> /\ type = <<>> /\ phase = "new"

(* A definition in short form is its type expression, an empty one a string. *)
Short == /\ phase = "new" /\ def.t # "map"
         /\ type' = ParseType(def)
         /\ phase' = IF type' = <<>> THEN "rejected" ELSE "accepted"
         /\ UNCHANGED <<def, rest>>

Settle == /\ phase = "new" /\ def.t = "map"
          /\ LET kind == KindOfMap(def) IN
             IF kind = "" THEN phase' = "rejected" /\ UNCHANGED <<rest, type>>
             ELSE /\ type' = <<NewType(kind, kind)>>
                  /\ rest' = Pairs(def)
                  /\ phase' = "reading"
          /\ UNCHANGED def

Take == /\ phase = "reading" /\ rest # <<>>
        /\ LET got == AssignType(type[1], rest[1].k, rest[1].v) IN
           /\ type' = got
           /\ phase' = IF got = <<>> THEN "rejected" ELSE "reading"
        /\ rest' = Tail(rest)
        /\ UNCHANGED def

Finish == /\ phase = "reading" /\ rest = <<>>
          /\ phase' = "accepted"
          /\ UNCHANGED <<def, rest, type>>

PNext == Short \/ Settle \/ Take \/ Finish

Done == phase \in {"accepted", "rejected"}

(******************************* Properties ********************************)
WellFormed(t) ==
  /\ t.kind \in Kinds
  /\ DOMAIN t.f \subseteq FacetKeys[t.kind]
  /\ \A k \in DOMAIN t.f : /\ ReadFacet(FacetOf[t.kind][k], t.f[k]) # <<>> \/ FacetOf[t.kind][k].form = "num"
                           /\ FacetOf[t.kind][k].def # <<t.f[k]>>
  /\ t.items # <<>> => t.kind = "array"
  /\ t.props # <<>> => t.kind = "object"
  /\ ~Extended(t.kind) => t.annot = <<>> /\ t.xml = <<>> /\ t.ex = <<>> /\ t.exs = <<>> /\ t.facets = <<>>
PTypeOK == type # <<>> => WellFormed(type[1])

(* The steps agree with the definition as a whole. *)
StepsAgree == Done => type = ParseType(def)

Entries == IF def.t = "map" THEN Pairs(def) ELSE <<>>
ExprOf == LET es == SelectSeq(Entries, LAMBDA e : e.k.v \in TypeKeys) IN es

(* P04: the kind depends on the type expression alone, or on which structure   *)
(* is described, and never changes while entries are taken in.                 *)
KindFromExpression ==
  phase = "accepted" =>
    /\ ExprOf # <<>> /\ ExprOf[1].v.t = "str" => type[1].kind = OfExpr(ExprOf[1].v.v).kind
    /\ ExprOf # <<>> /\ ExprOf[1].v.t = "inc" => type[1].kind = "include"
    /\ ExprOf = <<>> /\ def.t = "map" =>
         type[1].kind = (IF HasKey(def, "properties") THEN "object"
                         ELSE IF HasKey(def, "items") THEN "array" ELSE "string")
    /\ def.t = "str" => type[1] = OfExpr(def.v)
    /\ def.t = "seq" => FALSE
KindIsSettled == [][phase = "reading" /\ type' # <<>> => type'[1].kind = type[1].kind]_pvars
(* Short form, long form and both spellings of the type key agree. *)
FormsAgree == def.t = "str" =>
  \A key \in TypeKeys : ParseType(MapN(<<Str(key), def>>)) = ParseType(def)

(* P05: every declared facet is there with its value, all others have their    *)
(* default; no facet is among the unknown ones.                                *)
DeclaredFacets ==
  phase = "accepted" =>
    \A fk \in FacetKeys[type[1].kind] :
       LET fc == FacetOf[type[1].kind][fk]
           es == SelectSeq(Entries, LAMBDA e : e.k.v = fk)
       IN  /\ PartOf(type[1].f, fc) = (IF es = <<>> THEN fc.def ELSE ReadFacet(fc, es[Len(es)].v))
           /\ fk \notin KeysOf(type[1].extra)
(* The order of the entries does not matter, except for the order in which     *)
(* annotations and unknown facets are listed.                                  *)
SameSet(a, b) == Len(a) = Len(b) /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
OrderFree ==
  Done /\ Len(Entries) \in 2..4 =>
    LET back == ParseType(MapOf(Reverse(Entries)))
    IN  IF type = <<>> THEN back = <<>>
        ELSE /\ back # <<>>
             /\ SameSet(type[1].annot, back[1].annot)
             /\ SameSet(type[1].extra, back[1].extra)
             /\ [type[1] EXCEPT !.annot = <<>>, !.extra = <<>>] = [back[1] EXCEPT !.annot = <<>>, !.extra = <<>>]

(* P06 *)
MalformedRejected ==
  phase = "accepted" =>
    \A i \in 1..Len(Entries) : Entries[i].k.v \in FacetKeys[type[1].kind] =>
       ReadFacet(FacetOf[type[1].kind][Entries[i].k.v], Entries[i].v) # <<>>
(* Taking in an entry changes nothing but the part it belongs to. *)
Frame == [][phase = "reading" /\ rest # <<>> /\ type' # <<>> =>
              \A k \in FacetKeys[type[1].kind] \ {rest[1].k.v} :
                 PartOf(type'[1].f, FacetOf[type[1].kind][k]) = PartOf(type[1].f, FacetOf[type[1].kind][k])]_pvars

(* P10: annotations and unknown facets in document order. *)
OthersInOrder ==
  phase = "accepted" =>
    LET T == type[1]
        Known == FacetKeys[T.kind] \cup TypeKeys \cup {"required"}
                 \cup (IF T.kind = "array" THEN {"items"} ELSE {})
                 \cup (IF T.kind = "object" THEN {"properties"} ELSE {})
                 \cup (IF Extended(T.kind) THEN {"facets", "xml", "example", "examples"} ELSE {})
        Ann(e) == Extended(T.kind) /\ IsAnnotation(e.k)
        An == SelectSeq(Entries, Ann)
        Ex == SelectSeq(Entries, LAMBDA e : ~Ann(e) /\ e.k.v \notin Known)
        Distinct(s) == Cardinality({s[i].k.v : i \in 1..Len(s)}) = Len(s)
        KV(s) == [i \in 1..Len(s) |-> [k |-> s[i].k.v, v |-> s[i].v]]
    IN  /\ Distinct(An) => T.annot = KV(An)
        /\ Distinct(Ex) => T.extra = KV(Ex)

(* P12, P13, P15: what is written reads back as the same type, and is written  *)
(* the same way again.                                                         *)
Written(t) == Plain(RenderType(t))
RoundTrip == phase = "accepted" => ParseType(Written(type[1])) = type
Stable == phase = "accepted" => RenderType(ParseType(Written(type[1]))[1]) = RenderType(type[1])

(* P14: nothing is written that was not declared, and nothing with its default. *)
OnlyDeclared ==
  phase = "accepted" =>
    LET es == TypeEntries(type[1]) IN
    \A i \in 1..Len(es) :
       \/ es[i].k = "type"
       \/ /\ \E j \in 1..Len(Entries) : Entries[j].k.v = es[i].k
          /\ es[i].k \in FacetKeys[type[1].kind] =>
                FacetOf[type[1].kind][es[i].k].def # <<es[i].v>>
=============================================================================
