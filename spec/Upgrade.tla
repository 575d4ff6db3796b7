------------------------------- MODULE Upgrade -------------------------------
(* Which requests open a websocket session.  A request is a combination of
   choices; each choice is a concrete text (in parentheses: what it stands
   for).  The answer is a set of allowed statuses and whether a session runs. *)
EXTENDS Naturals, Sequences, TLC, Json

Choices == [
  method |-> {"GET", "POST", "HEAD"},
  version |-> {11, 10},
  host |-> {"yes", "no"},
  connection |-> {"Upgrade", "keep-alive, upgrade", "UPGRADE", "close", "", "upgrades", "not-upgrade"},
  upgrade |-> {"websocket", "WebSocket", "h2c, websocket", "h2c", "", "web socket"},
  key |-> {"good", "long", ""},
  ver |-> {"13", "12", "", "013", "8, 13"},
  mode |-> {"", "header", "refuse-null", "refuse-text", "refuse-throw"},
  path |-> {"/ws", "/do", "/nope"}]

CONSTANT Vary      \* how many fields of a valid request may differ
Fields == DOMAIN Choices
Good == [method |-> "GET", version |-> 11, host |-> "yes", connection |-> "Upgrade", upgrade |-> "websocket", key |-> "good", ver |-> "13", mode |-> "", path |-> "/ws"]

VARIABLE r
Near(n) == IF n = 1 THEN UNION {{[Good EXCEPT ![f] = v] : v \in Choices[f]} : f \in Fields}
           ELSE UNION {UNION {{[Good EXCEPT ![f] = v, ![g] = w] : v \in Choices[f], w \in Choices[g]} : g \in Fields} : f \in Fields}
Init == r \in Near(Vary)
Next == UNCHANGED r

HasConnection(q) == q.connection \in {"Upgrade", "keep-alive, upgrade", "UPGRADE"}
HasUpgrade(q) == q.upgrade \in {"websocket", "WebSocket", "h2c, websocket"}
Asks(q) == q.method = "GET" /\ q.version = 11 /\ HasConnection(q) /\ HasUpgrade(q)
Valid(q) == Asks(q) /\ q.host = "yes" /\ q.key = "good" /\ q.ver = "13"
\* status of the answer; 0: none, the handler throws
Status(q) ==
  CASE q.path = "/nope" -> 404
    [] q.path = "/do" -> 200
    [] ~Asks(q) -> 400
    [] q.mode \in {"refuse-null", "refuse-text"} -> 403
    [] q.mode = "refuse-throw" -> 0
    [] Valid(q) -> 101
    [] q.host = "yes" /\ q.key = "good" /\ q.ver # "" -> 426
    [] OTHER -> 400
Opens(q) == Status(q) = 101
\* does the connection stay open for another request?
Stays(q) == Status(q) \notin {0, 101} /\ (IF q.version = 11 THEN q.connection # "close" ELSE q.connection = "keep-alive, upgrade")

OnlyValid == Opens(r) => Valid(r)
ValidOpens == Valid(r) /\ r.path = "/ws" /\ r.mode \in {"", "header"} => Opens(r)
EmitInv == PrintT(ToJson([r |-> r, st |-> Status(r), stays |-> Stays(r)]))
=============================================================================
