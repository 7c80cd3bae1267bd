-------------------------------- MODULE OMap --------------------------------
(* The ordered map offered by the library: one sequence of entries with      *)
(* unique keys.  Every map type of the library is an instance; they differ   *)
(* in the values they can hold (StringMap cannot hold nil) and in whether    *)
(* conditional insertion takes a plain value or only pointers.               *)
EXTENDS OMapOps

CONSTANTS Keys,        \* keys used by callers
          Vals,        \* values that are not nil
          NilVal       \* the nil value

VARIABLES ents,        \* Seq of [k, v]: the entries in iteration order
          ordered      \* BOOLEAN: serialisation mode, TRUE is the default

vars == <<ents, ordered>>

(* The effect of an operation [o, k, v, f] on the entries.  f is the form in *)
(* which the value of a conditional insertion is passed: "nil", "val" or     *)
(* "ptr".                                                                    *)
Effect(s, op) ==
  CASE op.o = "put"        -> PutIn(s, op.k, op.v)
    [] op.o = "putnn"      -> IF op.f = "nil" THEN s ELSE PutIn(s, op.k, op.v)
    [] op.o = "reporput"   -> IF op.k \in KeysOf(s) THEN SetIn(s, op.k, op.v)
                              ELSE PutIn(s, op.k, op.v)
    [] op.o = "repifex"    -> SetIn(s, op.k, op.v)
    [] op.o = "delete"     -> Without(s, op.k)
    [] OTHER               -> s

ModeEffect(m, op) ==
  CASE op.o = "ordered" -> TRUE
    [] op.o = "plain"   -> FALSE
    [] OTHER            -> m

Op(o, k, v, f) == [o |-> o, k |-> k, v |-> v, f |-> f]

Ops == {Op("put", k, v, "") : k \in Keys, v \in Vals \cup {NilVal}}
  \cup {Op("putnn", k, v, f) : k \in Keys, v \in Vals, f \in {"val", "ptr"}}
  \cup {Op("putnn", k, NilVal, "nil") : k \in Keys}
  \cup {Op("reporput", k, v, "") : k \in Keys, v \in Vals \cup {NilVal}}
  \cup {Op("repifex", k, v, "") : k \in Keys, v \in Vals \cup {NilVal}}
  \cup {Op("delete", k, NilVal, "") : k \in Keys}
  \cup {Op(o, "", NilVal, "") : o \in {"ordered", "plain"}}

Init == ents = <<>> /\ ordered = TRUE

Do(op) == /\ ents' = Effect(ents, op)
          /\ ordered' = ModeEffect(ordered, op)

Next == \E op \in Ops : Do(op)

Spec == Init /\ [][Next]_vars

(***************************** Observations ********************************)
(* What the query methods report about a state. *)
Query(s) == [k \in Keys |->
               IF k \in KeysOf(s)
               THEN [has |-> TRUE, idx |-> Index(s, k), v |-> Lookup(s, k)]
               ELSE [has |-> FALSE, idx |-> 0 - 1, v |-> ""]]
(* The YAML form: "omap" is the ordered map sequence of one entry mappings,  *)
(* "map" one mapping; JSON is the array of pairs or one object.              *)
YamlForm(s, m) == [form |-> IF m THEN "omap" ELSE "map", body |-> s]
JsonForm(s, m) == [form |-> IF m THEN "array" ELSE "object", body |-> s]

(******************************* Properties ********************************)
TypeOK == /\ ents \in Seq([k : Keys, v : Vals \cup {NilVal}])
          /\ ordered \in BOOLEAN
(* P01 *)
UniqueKeys == Len(ents) = Cardinality(KeysOf(ents))
IndexAgrees == \A i \in 1..Len(ents) : /\ Index(ents, ents[i].k) = i - 1
                                       /\ Lookup(ents, ents[i].k) = ents[i].v
(* Each operation in terms of observations before and after. *)
PutMovesToEnd == [][\A k \in Keys, v \in Vals \cup {NilVal} :
     Do(Op("put", k, v, "")) =>
        /\ ents'[Len(ents')] = [k |-> k, v |-> v]
        /\ SubSeq(ents', 1, Len(ents') - 1) = Without(ents, k)]_vars
ReplaceKeepsPlace == [][\A k \in Keys, v \in Vals \cup {NilVal} :
     Do(Op("repifex", k, v, "")) =>
        /\ [i \in 1..Len(ents) |-> ents[i].k] = [i \in 1..Len(ents') |-> ents'[i].k]
        /\ k \in KeysOf(ents) => Lookup(ents', k) = v
        /\ \A j \in Keys \ {k} : j \in KeysOf(ents) => Lookup(ents', j) = Lookup(ents, j)]_vars
DeleteClosesGap == [][\A k \in Keys :
     Do(Op("delete", k, NilVal, "")) =>
        /\ k \notin KeysOf(ents')
        /\ ents' = Without(ents, k)]_vars
(* P02 *)
NilInsertIsNoop == [][\A k \in Keys : Do(Op("putnn", k, NilVal, "nil")) => UNCHANGED vars]_vars
CondInsertIsPut == \A k \in Keys, v \in Vals, f \in {"val", "ptr"} :
     Effect(ents, Op("putnn", k, v, f)) = Effect(ents, Op("put", k, v, ""))
(* P03 *)
FormsCarryEntries == /\ YamlForm(ents, ordered).body = ents
                     /\ JsonForm(ents, ordered).body = ents
ModeIsIndependent == [][\A op \in Ops : Do(op) =>
     /\ op.o \in {"ordered", "plain"} => ents' = ents
     /\ op.o \notin {"ordered", "plain"} => ordered' = ordered]_vars
=============================================================================
