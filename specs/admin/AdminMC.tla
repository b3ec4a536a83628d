------------------------------- MODULE AdminMC -------------------------------
(* The library among nodes and whoever sits between: what it reports done was  *)
(* done by that node.  Drop leaves one of its rules out.                        *)
EXTENDS Integers, FiniteSets
CONSTANTS Nodes, Steps, Drop
VARIABLES act, asked, did, said, told, n
vars == <<act, asked, did, said, told, n>>
Kinds == {"start", "look"}
None == [k |-> "none"]
Init == act = {} /\ asked = None /\ did = {} /\ said = {} /\ told = {} /\ n = 0
Ask == /\ asked = None /\ n < Steps
       /\ \E g \in Nodes, k \in Kinds :
            /\ k = "look" => (g \in act \/ Drop = "known")
            /\ asked' = [g |-> g, k |-> k, i |-> n]
       /\ n' = n + 1
       /\ act' = IF Drop = "early" /\ asked'.k = "start" THEN act \cup {asked'.g} ELSE act
       /\ said' = {} /\ UNCHANGED <<did, told>>
\* the node of an administrator does what it is asked, or not, and says which
Act == /\ asked # None
       /\ \E yes \in BOOLEAN :
            /\ (asked.k = "look" /\ yes) => <<asked.g, "start">> \in { <<d.g, d.k>> : d \in did }
            /\ said' = said \cup {[by |-> asked.g, k |-> asked.k, yes |-> yes]}
            /\ did' = IF yes THEN did \cup {asked} ELSE did
       /\ said = {}
       /\ UNCHANGED <<act, asked, told, n>>
\* what may come back: what the node said, what another node says, or an answer to something else
Back == said \cup { [by |-> g, k |-> k, yes |-> TRUE] : g \in Nodes \ {asked.g}, k \in Kinds } \cup { [by |-> asked.g, k |-> k, yes |-> TRUE] : k \in Kinds \ {asked.k} }
Hear == /\ asked # None
        /\ \E m \in Back :
             LET ok == /\ m.by = asked.g \/ Drop = "verify"
                       /\ m.k = asked.k \/ Drop = "kind"
                       /\ m.yes \/ Drop = "yes" IN
             /\ told' = IF ok THEN told \cup {asked} ELSE told
             /\ act' = IF ok /\ asked.k = "start" THEN act \cup {asked.g} ELSE act
        /\ asked' = None /\ said' = {} /\ UNCHANGED <<did, n>>
Lost == asked # None /\ asked' = None /\ said' = {} /\ UNCHANGED <<act, did, told, n>>
Next == Ask \/ Act \/ Hear \/ Lost
Spec == Init /\ [][Next]_vars
Confirmed == told \subseteq did
TakenOn == \A g \in act : \E d \in did : d.g = g /\ d.k = "start"
Looked == asked # None /\ asked.k = "look" => asked.g \in act
==============================================================================
