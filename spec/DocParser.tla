------------------------------ MODULE DocParser -------------------------------
(* The reader of API documents and libraries as a transition system: it takes  *)
(* in one root entry at a time and stops at the first it cannot accept.        *)
EXTENDS RamlDocs

VARIABLES class,         \* "api" or "lib"
          root,          \* the tree being read
          todo,          \* the entries that have not been taken in
          doc,           \* <<>> or <<the document read so far>>
          stage          \* "new", "reading", "accepted", "rejected"

dvars == <<class, root, todo, doc, stage>>

(* Roots other than mappings. *)
NoMapping == /\ stage = "new" /\ root.t # "map"
             /\ doc' = ParseDocument(class, root)
             /\ stage' = IF doc' = <<>> THEN "rejected" ELSE "accepted"
             /\ UNCHANGED <<class, root, todo>>

Start == /\ stage = "new" /\ root.t = "map"
         /\ doc' = <<NewDocument(class)>>
         /\ todo' = Pairs(root)
         /\ stage' = "reading"
         /\ UNCHANGED <<class, root>>

TakeIn == /\ stage = "reading" /\ todo # <<>>
          /\ doc' = AssignRoot(doc[1], todo[1].k, todo[1].v)
          /\ stage' = IF doc' = <<>> THEN "rejected" ELSE "reading"
          /\ todo' = Tail(todo)
          /\ UNCHANGED <<class, root>>

End == /\ stage = "reading" /\ todo = <<>>
       /\ stage' = "accepted"
       /\ UNCHANGED <<class, root, todo, doc>>

DNext == NoMapping \/ Start \/ TakeIn \/ End
Settled == stage \in {"accepted", "rejected"}

(******************************* Properties ********************************)
RootEntries == IF root.t = "map" THEN Pairs(root) ELSE <<>>
At(k) == SelectSeq(RootEntries, LAMBDA e : e.k.t = "str" /\ e.k.v = k)

DStepsAgree == Settled => doc = ParseDocument(class, root)

(* P08, P09: every section holds what is written under its key. *)
Sections ==
  stage = "accepted" =>
    LET d == doc[1] IN
    /\ \A k \in PartKeys(class) :
         LET es == At(k) fc == DocPart(class, k) IN
         IF es = <<>> \/ es[1].v = SeqN(<<>>) THEN k \notin DOMAIN d.f
         ELSE d.f[k] = (IF k = "mediaType" /\ es[1].v.t = "str" THEN SeqN(<<es[1].v>>) ELSE es[1].v)
    /\ \A k \in RawsOf(class) :
         LET es == At(k) IN
         IF es = <<>> \/ es[1].v = MapN(<<>>) THEN k \notin DOMAIN d.raws
         ELSE TextMap(d.raws[k]) = es[1].v
    /\ TextMap(d.uses) = (IF At("uses") = <<>> THEN MapN(<<>>) ELSE At("uses")[1].v)
    /\ class = "api" => /\ d.title = (IF At("title") = <<>> THEN "" ELSE At("title")[1].v.v)
                        /\ Len(d.docs) = (IF At("documentation") = <<>> THEN 0 ELSE Len(At("documentation")[1].v.c))
    /\ class = "lib" => d.docs = <<>> /\ d.resources = <<>> /\ d.title = ""
    /\ \A k \in TypesKeys : At(k) # <<>> =>
         [i \in 1..Len(d.types) |-> d.types[i].k] = [i \in 1..Len(Pairs(At(k)[1].v)) |-> Pairs(At(k)[1].v)[i].k.v]

(* P10: the remaining keys are annotations, resources or unknown facets, all   *)
(* in document order.                                                          *)
KnownKeys == PartKeys(class) \cup RawsOf(class) \cup TypesKeys \cup {"uses"}
             \cup (IF class = "api" THEN {"title", "documentation"} ELSE {})
IsAnn(e) == IsAnnotation(e.k)
IsRes(e) == class = "api" /\ e.k.t = "str" /\ HasPrefix(e.k.v, "/")
IsKnown(e) == e.k.v \in KnownKeys /\ (class = "lib" \/ e.k.t = "str")
AsEntries(s) == [i \in 1..Len(s) |-> [k |-> s[i].k.v, v |-> s[i].v]]
Rest ==
  stage = "accepted" =>
    /\ doc[1].annot = AsEntries(SelectSeq(RootEntries, IsAnn))
    /\ doc[1].resources = AsEntries(SelectSeq(RootEntries, IsRes))
    /\ doc[1].extra = AsEntries(SelectSeq(RootEntries, LAMBDA e : ~IsAnn(e) /\ ~IsRes(e) /\ ~IsKnown(e)))

(* Taking in an entry only changes the part it belongs to. *)
DFrame == [][stage = "reading" /\ todo # <<>> /\ doc' # <<>> =>
               \A fld \in DOMAIN doc[1] : doc'[1][fld] # doc[1][fld] =>
                  LET e == todo[1] IN
                  CASE fld = "f" -> e.k.v \in PartKeys(class) [] fld = "raws" -> e.k.v \in RawsOf(class)
                    [] fld = "types" -> e.k.v \in TypesKeys [] fld = "uses" -> e.k.v = "uses"
                    [] fld = "docs" -> e.k.v = "documentation" [] fld = "title" -> e.k.v = "title"
                    [] fld = "annot" -> IsAnn(e) [] fld = "resources" -> IsRes(e)
                    [] fld = "extra" -> ~IsKnown(e) \/ e.k.t # "str" [] OTHER -> FALSE]_dvars

(* P12, P13, P15. *)
(* Unknown facets are written under the text of their key. *)
TextKeysOnly == \A i \in 1..Len(RootEntries) : RootEntries[i].k.t = "str" \/ ~IsKnown(RootEntries[i])
DRoundTrip == stage = "accepted" /\ TextKeysOnly =>
                ParseDocument(class, Plain(RenderDocument(doc[1]))) = doc
(* P14 *)
DOnlyDeclared ==
  stage = "accepted" =>
    \A e \in {Pairs(RenderDocument(doc[1]))[i] : i \in 1..Len(Pairs(RenderDocument(doc[1])))} :
       \/ class = "api" /\ e.k.v = "title"
       \/ \E j \in 1..Len(RootEntries) : \/ RootEntries[j].k.v = e.k.v
                                         \/ e.k.v = "types" /\ RootEntries[j].k.v = "schemas"
=============================================================================
