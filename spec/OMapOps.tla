------------------------------- MODULE OMapOps -------------------------------
(* Pure operators of the ordered map: a sequence of [k, v] with unique keys.  *)
(* Every collection of the RAML model is such a sequence.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

KeysOf(s)  == {s[i].k : i \in 1..Len(s)}
(* Zero based position of a key, -1 if it is absent. *)
Index(s, k) == IF k \in KeysOf(s) THEN (CHOOSE i \in 1..Len(s) : s[i].k = k) - 1
               ELSE 0 - 1
Lookup(s, k) == s[Index(s, k) + 1].v

Without(s, k)    == SelectSeq(s, LAMBDA e : e.k # k)
PutIn(s, k, v)   == Append(Without(s, k), [k |-> k, v |-> v])
SetIn(s, k, v)   == [i \in 1..Len(s) |-> IF s[i].k = k THEN [k |-> k, v |-> v] ELSE s[i]]
=============================================================================
