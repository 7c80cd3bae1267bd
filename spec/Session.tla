------------------------------- MODULE Session --------------------------------
(* Several documents in use at the same time: they are opened (from a text     *)
(* that is a tree), edited through the builder interface at any depth, written *)
(* and opened again.  A slot is <<>> or <<document>>; texts[s] says whether    *)
(* what slot s was last written as is still what it would be written as.       *)
EXTENDS Builder

(* Objects inside of others.  A step of a path: [f, k, l, i].                  *)
AsExample(kind, e) == e @@ [kind |-> kind]
OfExample(e) == [x \in DOMAIN e \ {"kind"} |-> e[x]]

HasStep(c, o, st) ==
  CASE st.f = "types"  -> c \in {"api", "lib"} /\ st.k \in KeysOf(o.types)
    [] st.f = "docs"   -> c = "api" /\ st.i \in 1..Len(o.docs)
    [] st.f = "props"  -> c = "type" /\ st.k \in KeysOf(o.props)
    [] st.f = "items"  -> c = "type" /\ o.items # <<>>
    [] st.f = "facets" -> c = "type" /\ st.k \in KeysOf(o.facets) /\ st.l \in KeysOf(Lookup(o.facets, st.k))
    [] st.f = "xml"    -> c = "type" /\ o.xml # <<>>
    [] st.f = "ex"     -> c = "type" /\ o.ex # <<>>
    [] st.f = "exs"    -> c = "type" /\ st.k \in KeysOf(o.exs)
    [] OTHER -> FALSE

StepClass(st) == CASE st.f = "docs" -> "entry" [] st.f = "xml" -> "xml" [] st.f \in {"ex", "exs"} -> "example" [] OTHER -> "type"

(* The object a step leads to. *)
Follow(o, st) ==
  CASE st.f = "types"  -> Lookup(o.types, st.k)
    [] st.f = "docs"   -> o.docs[st.i]
    [] st.f = "props"  -> Lookup(o.props, st.k)
    [] st.f = "items"  -> o.items[1]
    [] st.f = "facets" -> Lookup(Lookup(o.facets, st.k), st.l)
    [] st.f = "xml"    -> o.xml[1]
    [] st.f = "ex"     -> AsExample(o.kind, o.ex[1])
    [] st.f = "exs"    -> AsExample(o.kind, Lookup(o.exs, st.k))
(* The object with another one in that place. *)
Replace(o, st, x) ==
  CASE st.f = "types"  -> [o EXCEPT !.types = SetIn(o.types, st.k, x)]
    [] st.f = "docs"   -> [o EXCEPT !.docs = [o.docs EXCEPT ![st.i] = x]]
    [] st.f = "props"  -> [o EXCEPT !.props = SetIn(o.props, st.k, x)]
    [] st.f = "items"  -> [o EXCEPT !.items = <<x>>]
    [] st.f = "facets" -> [o EXCEPT !.facets = SetIn(o.facets, st.k, SetIn(Lookup(o.facets, st.k), st.l, x))]
    [] st.f = "xml"    -> [o EXCEPT !.xml = <<x>>]
    [] st.f = "ex"     -> [o EXCEPT !.ex = <<OfExample(x)>>]
    [] st.f = "exs"    -> [o EXCEPT !.exs = SetIn(o.exs, st.k, OfExample(x))]

RECURSIVE PathExists(_, _, _), ApplyAt(_, _, _, _)
PathExists(c, o, path) ==
  path = <<>> \/ (HasStep(c, o, path[1]) /\ PathExists(StepClass(path[1]), Follow(o, path[1]), Tail(path)))
(* The object after a builder call on what the path leads to. *)
ApplyAt(c, o, path, op) ==
  IF path = <<>> THEN Apply(c, o, op)
  ELSE Replace(o, path[1], ApplyAt(StepClass(path[1]), Follow(o, path[1]), Tail(path), op))

(********************************* actions *********************************)
(* What a document is written as, and what that reads back as. *)
Written(d) == RenderDocument(d)
ReadBack(d) == ParseDocument(d.class, Plain(RenderDocument(d)))

(* Each action as the document a slot holds afterwards; <<>> if the action is  *)
(* refused and nothing changes.                                                *)
Opened(class, tree)    == ParseDocument(class, tree)
Created(class)         == <<NewDocument(class)>>
Edited(d, path, op)    == IF PathExists(d.class, d, path) THEN <<ApplyAt(d.class, d, path, op)>> ELSE <<>>
Reopened(d)            == ReadBack(d)
(* Looking at a document and writing it happen any number of times, in any     *)
(* order and at the same time: nothing changes.                                *)
Looked(d)              == <<d>>

(* What a path leads to, and the text a type is on its own: a definition.      *)
RECURSIVE AtPath(_, _)
AtPath(o, path) == IF path = <<>> THEN o ELSE AtPath(Follow(o, path[1]), Tail(path))
ToText(d, path)        == RenderType(AtPath(d, path))

(* A text of which only n bytes arrive is not read, whatever arrived; a        *)
(* document that only n of its total bytes can be written of stays as it was.  *)
CutReadVerdict         == "rejected"
CutWriteVerdict(n, total) == IF n < total THEN "failed" ELSE "written"
=============================================================================
