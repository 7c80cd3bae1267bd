----------------------------- MODULE MCDocParser -----------------------------
(* A systematic catalogue of API documents and libraries; each is printed with *)
(* what it means and how it is written, and is read by the real library.       *)
EXTENDS DocParser, Json, IOUtils

M1(k, v) == MapN(<<Str(k), v>>)
M2(k, v, l, w) == MapN(<<Str(k), v, Str(l), w>>)
E1(k, v) == [k |-> Str(k), v |-> v]
Rng(s) == {s[i] : i \in 1..Len(s)}

DocEntry(t, c) == M2("title", t, "content", c)
Values == <<
  Str("word"), Str(""), Str("12"), Str("a b: c"), Str("application/json"), IntN("5"), FloatN("1.5"), BoolN(TRUE), NullN,
  TsN("2020-01-02"), IncN("f.raml"),
  SeqN(<<>>), SeqN(<<Str("b"), Str("a"), Str("b")>>), SeqN(<<Str("HTTPS")>>), SeqN(<<Str("a"), IntN("1")>>), SeqN(<<NullN>>),
  SeqN(<<M1("oauth", M1("scopes", SeqN(<<Str("s")>>)))>>), SeqN(<<SeqN(<<Str("x")>>)>>),
  MapN(<<>>), M1("a", Str("string")), M2("b", Str("lib/b.raml"), "a", Str("lib/a.raml")), M2("b", NullN, "a", IntN("7")),
  M2("z", M2("type", Str("integer"), "minimum", IntN("1")), "a", M1("properties", M1("p", Str("z")))),
  M1("a", M1("items", IntN("1"))), M1("a", M2("type", Str("string"), "minLength", Str("x"))),
  MapN(<<IntN("1"), Str("x")>>), MapN(<<Str("a"), SeqN(<<Str("q"), MapN(<<>>)>>), Str("0"), BoolN(FALSE), Str("(x)"), M1("k", NullN)>>),
  SeqN(<<DocEntry(Str("One"), Str("text")), DocEntry(Str("Two"), IncN("two.md"))>>),
  SeqN(<<DocEntry(Str(""), Str("")), MapN(<<>>)>>),
  SeqN(<<MapN(<<Str("z"), NullN, Str("content"), Str("c"), Str("(note)"), Str("n"), Str("title"), Str("t"), Str("a"), SeqN(<<>>)>>)>>),
  SeqN(<<DocEntry(IntN("1"), Str("x"))>>), SeqN(<<DocEntry(Str("t"), NullN)>>), SeqN(<<DocEntry(Str("t"), Str("c")), Str("x")>>) >>

RootKeys == <<"title", "description", "version", "baseUri", "baseUriParameters", "protocols", "mediaType",
  "documentation", "types", "schemas", "traits", "resourceTypes", "annotationTypes", "securitySchemes", "securedBy", "uses", "usage",
  "(note)", "(b)", "/users", "/", "x-extra", "another", "404", "", "Title", "(", "type">>
OddKeys == <<IntN("404"), BoolN(TRUE), Sc("null", "null"), TsN("2020-01-02"), FloatN("1.5"), IncN("k"), Sc("int", "7")>>

Good(k) == CASE k \in {"title", "description", "version", "baseUri", "usage"} -> Str("some " \o k)
             [] k \in {"baseUriParameters", "traits", "resourceTypes", "annotationTypes", "securitySchemes"} ->
                  M2("z" \o k, M2("type", Str("string"), "description", NullN), "a", SeqN(<<IntN("1"), Str(k)>>))
             [] k = "protocols" -> SeqN(<<Str("HTTPS"), Str("HTTP")>>)
             [] k = "mediaType" -> SeqN(<<Str("text/xml"), Str("application/json")>>)
             [] k = "securedBy" -> SeqN(<<Str("oauth"), Str("basic")>>)
             [] k = "documentation" -> SeqN(<<DocEntry(Str("Two"), IncN("b.md")), MapN(<<Str("content"), Str("c"), Str("x"), M1("y", NullN), Str("title"), Str("One")>>)>>)
             [] k \in {"types", "schemas"} -> MapN(<<Str("P"), M2("type", Str("object"), "properties", M1("id", Str("integer"))),
                                                     Str("A"), Str("P[]"), Str("N"), M2("type", Str("number"), "maximum", FloatN("9.5"))>>)
             [] k = "uses" -> M2("zz", Str("lib/zz.raml"), "aa", Str("lib/aa.raml"))
             [] k \in {"(note)", "(b)", "("} -> M2("k" \o k, SeqN(<<NullN>>), "a", Str("v"))
             [] k \in {"/users", "/"} -> M2("get", M1("responses", MapN(<<IntN("200"), NullN>>)), "/{id}", M1("displayName", Str(k)))
             [] OTHER -> M2("q", Str(k), "b", FloatN("0.5"))

Classes == {"api", "lib"}
Case(cl, n) == [class |-> cl, root |-> n]
DistinctKeys(n) == n.t # "map" \/ /\ Cardinality({Pairs(n)[i].k.v : i \in 1..Len(Pairs(n))}) = Len(Pairs(n))
                                  /\ ~\E i, j \in 1..Len(Pairs(n)) : Pairs(n)[i].k.v = "types" /\ Pairs(n)[j].k.v = "schemas"

Plains(c) == { Case(cl, n) : cl \in Classes, n \in Rng(Values) \cup {Sc("none", "")} }
(* Every key with every value, alone and next to a title. *)
(* Whether an empty list of these and none at all differ is left open. *)
Unclear(k, v) == RootKeys[k] \in {"protocols", "mediaType", "securedBy"} /\ v = SeqN(<<>>)
Singles(k) == { Case(cl, MapOf(es)) : cl \in Classes,
                  es \in UNION { {<<E1(RootKeys[k], v)>>, <<E1(RootKeys[k], v), E1("uses", Good("uses"))>>,
                                  <<E1("title", Str("t")), E1(RootKeys[k], v), E1("/r", NullN)>>} : v \in {w \in Rng(Values) : ~Unclear(k, w)} } }
Odds(c) == { Case(cl, MapOf(es)) : cl \in Classes,
               es \in UNION { {<<[k |-> o, v |-> v]>>, <<E1("z", Str("t")), [k |-> o, v |-> v], E1("/r", NullN), E1("a", IntN("1"))>>}
                              : o \in Rng(OddKeys), v \in {Str("x"), NullN, M1("a", SeqN(<<>>))} } }
(* Pairs and triples of well-formed sections in any order. *)
Doubles(i) == { Case(cl, MapOf(<<E1(RootKeys[i], Good(RootKeys[i])), E1(RootKeys[j], Good(RootKeys[j]))>>))
                  : cl \in Classes, j \in 1..Len(RootKeys) }
Triples(i) == { Case(cl, MapOf(<<E1(RootKeys[i], Good(RootKeys[i])), E1(RootKeys[j], Good(RootKeys[j])), E1(RootKeys[k], Good(RootKeys[k]))>>))
                  : cl \in Classes, j \in 1..Len(RootKeys), k \in {x \in 1..Len(RootKeys) : (x + i) % 3 = 0} }
(* Everything at once, everything but one, rotated and reversed. *)
AllBut(s, k) == SelectSeq(s, LAMBDA x : x # k)
Rotate(s, n) == [i \in 1..Len(s) |-> s[((i + n - 1) % Len(s)) + 1]]
AsMap(ks) == MapOf([i \in 1..Len(ks) |-> E1(ks[i], Good(ks[i]))])
Fulls(c) == LET A == AllBut(RootKeys, "schemas") B == AllBut(RootKeys, "types") IN
  { Case(cl, AsMap(ks)) : cl \in Classes,
      ks \in {Rotate(A, n) : n \in 0..Len(A)} \cup {Reverse(Rotate(B, n)) : n \in 0..Len(B)}
             \cup {AllBut(A, RootKeys[i]) : i \in 1..Len(RootKeys)} \cup {AllBut(Reverse(B), RootKeys[i]) : i \in 1..Len(RootKeys)} }

(* Documentation entries. *)
DocEntries == <<E1("title", Str("t")), E1("title", Str("")), E1("content", Str("c")), E1("content", IncN("c.md")), E1("content", Str("")),
  E1("x", NullN), E1("(note)", M1("a", SeqN(<<>>))), E1("Title", Str("u")), [k |-> IntN("1"), v |-> IntN("2")],
  E1("title", IntN("1")), E1("title", NullN), E1("content", IntN("1")), E1("content", SeqN(<<>>)), E1("title", IncN("t"))>>
DocNodes(c) == { MapOf(<<DocEntries[i]>>) : i \in 1..Len(DocEntries) }
    \cup { MapOf(<<DocEntries[i], DocEntries[j]>>) : i \in 1..Len(DocEntries), j \in 1..9 }
    \cup { MapOf(<<DocEntries[i], DocEntries[j], DocEntries[k]>>) : i \in 1..9, j \in 1..9, k \in 1..9 }
Docs(c) == LET N == {n \in DocNodes(c) : DistinctKeys(n)} IN
     { Case("api", M2("title", Str("t"), "documentation", SeqN(<<n>>))) : n \in N }
  \cup { Case("api", M2("documentation", SeqN(<<DocEntry(Str("first"), Str("1")), n, MapOf(<<DocEntries[6], DocEntries[4]>>), n>>), "title", Str("t"))) : n \in N }
  \cup { Case("api", M1("documentation", n)) : n \in Rng(Values) } \cup { Case("api", M1("documentation", SeqN(<<n>>))) : n \in Rng(Values) }

Chunks == CASE IOEnv.SLICE \in {"singles", "doubles", "triples"} -> Len(RootKeys) [] OTHER -> 1
Chunk(i) == CASE IOEnv.SLICE = "plains" -> Plains(i) \cup Odds(i) \cup Fulls(i)
              [] IOEnv.SLICE = "singles" -> Singles(i)
              [] IOEnv.SLICE = "doubles" -> Doubles(i)
              [] IOEnv.SLICE = "triples" -> Triples(i)
              [] IOEnv.SLICE = "docs" -> Docs(i)

MCInit == /\ \E i \in 1..Chunks : root = Sc("chunk", ToString(i)) /\ todo = <<i>>
          /\ class = "" /\ doc = <<>> /\ stage = "pick"
Pick == /\ stage = "pick"
        /\ \E d \in {x \in Chunk(todo[1]) : DistinctKeys(x.root)} : root' = d.root /\ class' = d.class
        /\ todo' = <<>> /\ stage' = "new" /\ UNCHANGED doc
MCDNext == \/ Pick
           \/ /\ DNext
              /\ stage' \in {"accepted", "rejected"} =>
                   PrintT("C " \o ToJson([class |-> class, def |-> root, doc |-> doc',
                                          out |-> IF doc' = <<>> THEN <<>> ELSE <<RenderDocument(doc'[1])>>]))
MCDSpec == MCInit /\ [][MCDNext]_dvars
=============================================================================
