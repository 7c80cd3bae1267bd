----------------------------- MODULE TraceSession -----------------------------
(* Validates recorded sessions: every step has to be an action of Session from *)
(* what the accessors reported before it to what they report after it.  The    *)
(* observed document is taken over after each step, so that each step is       *)
(* judged on its own.                                                          *)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NSlots == 3

VARIABLES l, docs, digests, hashes

tvars == <<l, docs, digests, hashes>>
Ev == Trace[l]

(***************************** what is compared ****************************)
(* The parts of documents a property is about; the others are blanked out.     *)
Parts(p) ==
  CASE p = "P04" -> {"kind"}
    [] p = "P05" -> {"kind", "facet"}
    [] p = "P10" -> {"annot", "extra"}
    [] p = "P11" -> {"example"}
    [] p = "P22" -> {"xml", "docs"}
    [] OTHER -> {"kind", "facet", "annot", "extra", "example", "xml", "docs", "section"}
Keep == Parts(IOEnv.PROP)
If(part, v, none) == IF part \in Keep THEN v ELSE none

CutExample(e) == [val |-> If("example", e.val, <<>>), f |-> If("example", e.f, None),
                  annot |-> IF Keep \cap {"annot", "example"} # {} THEN e.annot ELSE <<>>,
                  extra |-> IF Keep \cap {"extra", "example"} # {} THEN e.extra ELSE <<>>]
CutXml(x) == [f |-> If("xml", x.f, None), extra |-> IF Keep \cap {"extra", "xml"} # {} THEN x.extra ELSE <<>>]
RECURSIVE CutType(_)
CutTypes(s) == [i \in 1..Len(s) |-> [k |-> s[i].k, v |-> CutType(s[i].v)]]
CutType(t) ==
  [kind |-> If("kind", t.kind, ""), type |-> If("kind", t.type, ""), req |-> If("facet", t.req, TRUE), f |-> If("facet", t.f, None),
   items |-> [i \in 1..Len(t.items) |-> CutType(t.items[i])], props |-> CutTypes(t.props),
   annot |-> If("annot", t.annot, <<>>), extra |-> If("extra", t.extra, <<>>),
   facets |-> [i \in 1..Len(t.facets) |-> [k |-> t.facets[i].k, v |-> CutTypes(t.facets[i].v)]],
   xml |-> [i \in 1..Len(t.xml) |-> CutXml(t.xml[i])], ex |-> [i \in 1..Len(t.ex) |-> CutExample(t.ex[i])],
   exs |-> [i \in 1..Len(t.exs) |-> [k |-> t.exs[i].k, v |-> CutExample(t.exs[i].v)]]]
CutDoc(d) == [title |-> If("docs", d.title, ""), content |-> If("docs", d.content, ""), inc |-> If("docs", d.inc, FALSE),
              extra |-> IF Keep \cap {"docs", "extra"} # {} THEN d.extra ELSE <<>>]
Cut(d) ==
  [class |-> d.class, title |-> If("section", d.title, ""), f |-> If("section", d.f, None), raws |-> If("section", d.raws, None),
   uses |-> If("section", d.uses, <<>>), resources |-> If("section", d.resources, <<>>),
   types |-> CutTypes(d.types), docs |-> [i \in 1..Len(d.docs) |-> CutDoc(d.docs[i])],
   annot |-> If("annot", d.annot, <<>>), extra |-> If("extra", d.extra, <<>>)]
Same(exp, view) == IF exp = <<>> THEN view = <<>> ELSE view # <<>> /\ Cut(exp[1]) = Cut(view[1])

Verdict(exp) == IF exp = <<>> THEN "rejected" ELSE "accepted"

(********************************* the steps *******************************)
(* Each check is <<name, what has to hold>>; a property has its own checks.    *)
Chk(ps, name, ok) == [ps |-> ps, name |-> name, ok |-> ok]

Exp == CASE Ev.op = "open" -> Opened(Ev.class, Ev.tree)
         [] Ev.op = "new" -> Created(Ev.class)
         [] Ev.op = "edit" -> Edited(docs[Ev.s][1], Ev.path, Ev.call)
         [] Ev.op = "reopen" -> Reopened(docs[Ev.from][1])
         [] OTHER -> docs[Ev.s]
SameAsExpected == Exp # <<>> /\ Ev.verdict = "accepted" => Same(Exp, Ev.view)

OpenChecks ==
  {Chk({"P04", "P05", "P10", "P11", "P21", "P22"}, "what is read", SameAsExpected),
   Chk({"P06"}, "malformed values are rejected", Exp = <<>> => Ev.verdict = "rejected"),
   Chk({"P24"}, "reading in pieces", Ev.verdict = Verdict(Exp) /\ SameAsExpected),
   Chk({IF Ev.class = "api" THEN "P08" ELSE "P09"}, "accepted or rejected", Ev.verdict = Verdict(Exp)),
   Chk({IF Ev.class = "api" THEN "P08" ELSE "P09"}, "what is read", SameAsExpected)}

OwnerOf(on) == CASE on = "type" -> "P16" [] on = "api" -> "P17" [] on = "lib" -> "P18" [] OTHER -> "P23"
EditChecks ==
  {Chk({OwnerOf(Ev.on)}, "the call", Ev.verdict = "done"),
   Chk({OwnerOf(Ev.on)}, "what is reported afterwards", Same(Exp, Ev.view))}

WriteChecks ==
  {Chk({"P12", "P13", "P19"}, "writing", Ev.verdict = "written"),
   Chk({"P12", "P13"}, "header", Ev.headed),
   Chk({"P14"}, "what is written", Ev.verdict = "written" => Matches(Written(docs[Ev.s][1]), Ev.tree)),
   Chk({"P15"}, "writing changes nothing", Ev.digests[Ev.s] = digests[Ev.s]),
   Chk({"P15", "P24", "P25"}, "the same text again", hashes[Ev.s] # "" => Ev.hash = hashes[Ev.s])}

ReopenChecks ==
  LET ps == {IF docs[Ev.from][1].class = "api" THEN "P12" ELSE "P13", "P19"} IN
  (* Unless a type was given an expression of another kind: then facets turn    *)
  (* into unknown ones.                                                         *)
  IF Exp # docs[Ev.from] THEN {}
  ELSE {Chk(ps, "accepted or rejected", Ev.verdict = "accepted"),
        Chk(ps \cup {"P10", "P11", "P22"}, "what is read again", SameAsExpected)}

(* The document is inspected, or written once more. *)
LookChecks ==
  {Chk({"P25"}, "looking", Ev.verdict = "done"),
   Chk({"P25"}, "what is seen", Ev.digests[Ev.s] # "" => Ev.digests[Ev.s] = digests[Ev.s]),
   Chk({"P25"}, "what is written", Ev.hash # "" => Ev.hash = hashes[Ev.s])}

(* n = total bytes arrive, but then an error instead of the end. *)
CutReadChecks ==
  {Chk({"P24"}, "a reading that fails is reported", Ev.verdict = CutReadVerdict),
   Chk({"P24"}, "nothing happens to the document", Ev.digests[Ev.s] = digests[Ev.s])}
CutWriteChecks ==
  {Chk({"P24"}, "a writing that fails is reported", Ev.verdict = CutWriteVerdict(Ev.n, Ev.total)),
   Chk({"P24"}, "a beginning of the text is written", Ev.headed),
   Chk({"P24", "P15"}, "nothing happens to the document", Ev.digests[Ev.s] = digests[Ev.s])}

(* The text of a single type. *)
TextChecks ==
  {Chk({"P26"}, "the text of a type", /\ Ev.verdict = "done"
                                      /\ PathExists(docs[Ev.s][1].class, docs[Ev.s][1], Ev.path)
                                      /\ Matches(ToText(docs[Ev.s][1], Ev.path), Ev.tree)),
   Chk({"P26", "P15"}, "nothing happens to the document", Ev.digests[Ev.s] = digests[Ev.s])}

OtherSlots == {Chk({"P20"}, "nothing happens to the other documents", \A s \in 1..NSlots : s # Ev.s => Ev.digests[s] = digests[s]),
           Chk({"P20", "P07"}, "a rejected text changes nothing", Ev.verdict = "rejected" => Ev.digests[Ev.s] = digests[Ev.s])}

Performed ==
  IF Ev.verdict = "crashed" THEN {Chk({"P07"} \cup (IF Ev.op = "look" THEN {"P25"} ELSE {}), "a crash", FALSE)}
  ELSE CASE Ev.op = "open"   -> OpenChecks \cup OtherSlots
         (* A text the specification says nothing about. *)
         [] Ev.op = "text"   -> {Chk({"P07"}, "accepted or rejected", Ev.verdict \in {"accepted", "rejected"})}
         [] Ev.op = "new"    -> {Chk({"P17", "P18"}, "a new document", Same(Exp, Ev.view))} \cup OtherSlots
         [] Ev.op = "edit"   -> EditChecks \cup OtherSlots
         [] Ev.op = "write"  -> WriteChecks \cup OtherSlots
         [] Ev.op = "reopen" -> ReopenChecks \cup OtherSlots
         [] Ev.op = "look"   -> LookChecks
         [] Ev.op = "totext" -> TextChecks \cup OtherSlots
         [] Ev.op = "cutread"  -> CutReadChecks \cup OtherSlots
         [] Ev.op = "cutwrite" -> CutWriteChecks \cup OtherSlots
         (* A step no action allows: shows that rejections come through.          *)
         [] Ev.op = "canary" -> {Chk({IOEnv.PROP}, "canary", FALSE)}
         [] OTHER -> {}

(* P20: everything holds whatever else is going on. *)
Relevant == {c \in Performed : IOEnv.PROP \in c.ps \cup {"ALL", "P20"}}
Failing == {c.name : c \in {x \in Relevant : ~x.ok}}
Report == IF Failing = {} THEN TRUE ELSE PrintT("R " \o ToJson([line |-> l, failing |-> SetToSeq(Failing), expected |-> Exp]))

Empty == [s \in 1..NSlots |-> <<>>]
Blank == [s \in 1..NSlots |-> ""]

TraceInit == l = 1 /\ docs = Empty /\ digests = Blank /\ hashes = Blank
Step == /\ l <= Len(Trace)
        /\ Report
        /\ l' = l + 1
        /\ IF Ev.op = "begin" THEN docs' = Empty /\ digests' = Blank /\ hashes' = Blank
           ELSE IF Ev.verdict = "crashed" \/ Ev.op \in {"look", "cutread", "cutwrite", "totext", "canary"} THEN UNCHANGED <<docs, digests, hashes>>
           ELSE /\ docs' = [docs EXCEPT ![Ev.s] = Ev.view]
                /\ digests' = [s \in 1..NSlots |-> Ev.digests[s]]
                /\ hashes' = [hashes EXCEPT ![Ev.s] =
                                IF Ev.op = "write" THEN Ev.hash
                                (* what is opened again is written as before *)
                                ELSE IF Ev.op = "reopen" /\ Ev.verdict = "accepted"
                                THEN (IF Exp = docs[Ev.from] THEN hashes[Ev.from] ELSE "")
                                ELSE IF Ev.verdict = "rejected" THEN hashes[Ev.s] ELSE ""]
TraceSpec == TraceInit /\ [][Step]_tvars

(* Every line was judged. *)
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
