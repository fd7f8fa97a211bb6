------------------------------- MODULE Trie -------------------------------
(* Trace-validation plumbing shared by all trace specifications.           *)
(* The recorded executions of the real code are handed over as a prefix    *)
(* tree: Nodes[n] = [ev |-> the event of node n, kids |-> its children].   *)
(* Node 1 is the root (no event).  A trace is accepted when the node of    *)
(* its last event is reachable; every reachable node is marked in a TLC    *)
(* register and Report writes the nodes that were NOT reached.             *)
(* Must be run with -workers 1.                                            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
Nodes == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLE node
NodeInit == node = 1
Step(n) == n \in {Nodes[node].kids[i] : i \in 1..Len(Nodes[node].kids)} /\ node' = n
Kids == {Nodes[node].kids[i] : i \in 1..Len(Nodes[node].kids)}
ASSUME \A n \in 1..Len(Nodes) : TLCSet(n, 0)
Mark == TLCSet(node, 1)
Report == JsonSerialize(IOEnv.VF_OUT, <<Len(Nodes), SetToSeq({n \in 1..Len(Nodes) : TLCGet(n) = 0})>>)
===========================================================================
