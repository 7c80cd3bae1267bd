-------------------------------- MODULE Yaml --------------------------------
(* YAML documents as trees.  A node is a record [t, v, c]: its tag, the       *)
(* canonical text of a scalar, and its children.  The children of a mapping   *)
(* are its keys and values in turn.                                           *)
(*   str int uint float bool null ts inc seq map                              *)
(* "uint" is a whole number beyond the signed 64 bit range, "ts" an unquoted  *)
(* date, "inc" an !include.  "num" only occurs in expected trees: a number    *)
(* which may be written as a whole or as a floating point number.             *)
EXTENDS OMapOps, SequencesExt, TLC

Node(t, v, c) == [t |-> t, v |-> v, c |-> c]
Sc(t, v)  == Node(t, v, <<>>)
Str(v)    == Sc("str", v)
IntN(v)   == Sc("int", v)
FloatN(v) == Sc("float", v)
NumN(v)   == Sc("num", v)
BoolN(b)  == Sc("bool", IF b THEN "true" ELSE "false")
NullN     == Sc("null", "")
TsN(v)    == Sc("ts", v)
IncN(v)   == Sc("inc", v)
SeqN(s)   == Node("seq", "", s)
MapN(s)   == Node("map", "", s)

IsScalar(n) == n.t \notin {"seq", "map"}

(* The entries of a mapping, and a mapping of entries [k: node, v: node]. *)
Pairs(n) == [i \in 1..(Len(n.c) \div 2) |-> [k |-> n.c[2 * i - 1], v |-> n.c[2 * i]]]
MapOf(ps) == MapN(FlattenSeq([i \in 1..Len(ps) |-> <<ps[i].k, ps[i].v>>]))
(* A mapping of entries [k: text, v: node]. *)
TextMap(ps) == MapN(FlattenSeq([i \in 1..Len(ps) |-> <<Str(ps[i].k), ps[i].v>>]))

(* Texts.  TLC treats strings as sequences of characters. *)
First(s, n)      == IF Len(s) < n THEN s ELSE SubSeq(s, 1, n)
HasPrefix(s, p)  == Len(s) >= Len(p) /\ First(s, Len(p)) = p
TrimPrefix(s, p) == IF HasPrefix(s, p) THEN SubSeq(s, Len(p) + 1, Len(s)) ELSE s
HasChar(s, ch)  == \E i \in 1..Len(s) : SubSeq(s, i, i) = ch

(* Whether a tree that was written is the expected one.  Neither the order of *)
(* the entries of a mapping nor the spelling of a number matters.             *)
RECURSIVE Matches(_, _)
Matches(exp, got) ==
  IF exp.t = "num" THEN got.t \in {"int", "uint", "float"} /\ got.v = exp.v
  ELSE IF exp.t # got.t \/ exp.v # got.v \/ Len(exp.c) # Len(got.c) THEN FALSE
  ELSE IF exp.t = "seq" THEN \A i \in 1..Len(exp.c) : Matches(exp.c[i], got.c[i])
  ELSE IF exp.t = "map" THEN
    LET E == Pairs(exp) G == Pairs(got) IN
    \A i \in 1..Len(E) :
       LET js == {j \in 1..Len(G) : G[j].k = E[i].k}
       IN  Cardinality(js) = 1 /\ \A j \in js : Matches(E[i].v, G[j].v)
  ELSE TRUE
=============================================================================
