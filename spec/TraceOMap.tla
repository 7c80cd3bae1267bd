------------------------------ MODULE TraceOMap ------------------------------
(* Validates histories recorded from the real map types: every recorded call  *)
(* must be the action of OMap with the same arguments, and everything the map *)
(* showed after the call must be what OMap's observations say.  A file holds  *)
(* many histories; the operation "new" starts the next one.                   *)
EXTENDS OMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Trace[l]

SameEnts(a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ a[i].v = b[i].v

Checks(p) == IOEnv.PROP \in {p, "ALL", "P20", "P25"}

(* Serialised forms are compared with what the map itself shows, so that each *)
(* property is judged on its own.                                            *)
ShownBy(ev, s, m) ==
  /\ Checks("P01") =>
       /\ ev.problem = ""
       /\ ev.len = Len(s)
       /\ SameEnts(ev.each, s)
       /\ SameEnts(ev.at, s)
       /\ \A k \in DOMAIN ev.q :
             /\ ev.q[k].has = (k \in KeysOf(s))
             /\ ev.q[k].idx = Index(s, k)
             /\ k \in KeysOf(s) => ev.q[k].v = Lookup(s, k)
  /\ Checks("P02") =>
       /\ ev.problem = ""
       /\ ev.op.o = "putnn" => SameEnts(ev.each, s)
       /\ ev.hasopt => /\ Len(ev.opt) = Len(s)
                       /\ \A i \in 1..Len(ev.opt) :
                             /\ ev.opt[i].k \in KeysOf(s)
                             /\ ev.opt[i].v = Lookup(s, ev.opt[i].k)
  /\ Checks("P03") =>
       /\ ev.yaml = YamlForm(s, m).form
       /\ SameEnts(ev.yamlents, YamlForm(ev.each, m).body)
       /\ ev.json = JsonForm(s, m).form
       /\ SameEnts(ev.jsonents, JsonForm(ev.each, m).body)

TraceInit == l = 1 /\ Init

Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Ev.op.o = "new" THEN ents' = <<>> /\ ordered' = TRUE
           ELSE IF Ev.op.o = "look" THEN UNCHANGED vars
           ELSE Do(Op(Ev.op.o, Ev.op.k, Ev.op.v, Ev.op.f))
        /\ ShownBy(Ev, ents', ordered')

TraceSpec == TraceInit /\ [][Step]_<<vars, l>>

(* Invariants of OMap hold in every recorded state too. *)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Done == IF Accepted THEN TRUE
        ELSE PrintT("REJECTED " \o ToJson([line |-> TLCGet("stats").diameter]))
AcceptedOrReported == Done /\ Accepted
=============================================================================
