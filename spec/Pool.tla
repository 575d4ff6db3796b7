-------------------------------- MODULE Pool --------------------------------
(* A server on a pool of threads, as its clients see it.  The handler of an
   "ask" answers at once, that of a "hold" keeps its thread until it is
   released.  The requests of one connection run one after another; those of
   different connections run at the same time, as far as there are threads. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Conns, Workers
VARIABLES inbox,    \* per connection, the requests that have not begun
          held      \* the connections whose handler keeps a thread
pvars == <<inbox, held>>
Kinds == {"ask", "hold"}

PInit == inbox = [c \in Conns |-> <<>>] /\ held = {}
Free == Workers - Cardinality(held)
Ready(c) == inbox[c] # <<>> /\ c \notin held
CanBegin == \E c \in Conns : Ready(c) /\ Free > 0
Begin(c) == /\ Ready(c) /\ Free > 0
            /\ inbox' = [inbox EXCEPT ![c] = Tail(@)]
            /\ held' = IF inbox[c][1] = "hold" THEN held \cup {c} ELSE held
Send(c, k) == inbox' = [inbox EXCEPT ![c] = Append(@, k)] /\ UNCHANGED held
Release(c) == c \in held /\ held' = held \ {c} /\ UNCHANGED inbox
PNext == \E c \in Conns : Begin(c) \/ Release(c) \/ \E k \in Kinds : Send(c, k)
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
