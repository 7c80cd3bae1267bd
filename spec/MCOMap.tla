------------------------------- MODULE MCOMap -------------------------------
(* Exhaustive exploration of OMap with small constants.  Each state and each *)
(* transition is printed as JSON and replayed into every real map type.      *)
EXTENDS OMap, TLC, Json

Say(tag, x) == PrintT(tag \o ToJson(x))

MCInit == Init /\ Say("S ", [ents |-> ents, ordered |-> ordered])

MCNext == \E op \in Ops :
            /\ Do(op)
            /\ Say("T ", [pre |-> [ents |-> ents, ordered |-> ordered], op |-> op,
                          post |-> [ents |-> ents', ordered |-> ordered'],
                          q |-> Query(ents'),
                          yaml |-> YamlForm(ents', ordered').form,
                          json |-> JsonForm(ents', ordered').form])
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
