------------------------------ MODULE Builder --------------------------------
(* A request, response or test request and the builder it goes through: every
   setter replaces or adds exactly its own part, a finishing operation fixes
   the body and yields the object, "again" turns the object into a builder.  *)
EXTENDS HeaderMap, FiniteSets
\* body: k tells how it is framed, t the bytes
Body(k, n, t) == [k |-> k, n |-> n, t |-> t]
NullBody == Body("null", "", "")
JsonType == [l |-> "content-type", n |-> "Content-Type", v |-> "application/json"]
Json == [j0 |-> "null", j1 |-> "{\"a\":1,\"b\":[true,\"x\"]}", j2 |-> "\"\\n\"", j3 |-> "[]"]
ObjJson == "{\"id\":7,\"name\":\"n\"}"
Len8 == [e |-> "0"]
QPut(q, n, v) == {e \in q : e[1] # n} \cup {<<n, v>>}
Finish == {"null", "text", "bytes", "stream", "chunked", "json", "jobj", "build"}
HeadOf(o) == [o |-> "set", d |-> "a", l |-> JsonType.l, n |-> JsonType.n, v |-> JsonType.v]
Do1(x, op) ==
  CASE op.o = "st"  -> [x EXCEPT !.st = op.v]
    [] op.o = "ver" -> [x EXCEPT !.ver = op.v]
    [] op.o \in {"set", "ins", "era"} -> [x EXCEPT !.h = One(@, op)]
    [] op.o = "q"   -> [x EXCEPT !.q = QPut(@, op.n, op.v)]
    [] op.o = "again" -> x
    [] op.o = "build" -> x
    [] op.o = "null" -> [x EXCEPT !.b = NullBody]
    [] op.o \in {"text", "bytes"} -> [x EXCEPT !.b = Body("sized", "len", op.v)]
    [] op.o = "stream" -> [x EXCEPT !.b = Body("sized", "open", op.v)]
    [] op.o = "chunked" -> [x EXCEPT !.b = Body("chunked", "", op.v)]
    [] op.o = "json" -> [x EXCEPT !.b = Body("sized", "len", Json[op.v]), !.h = One(@, HeadOf(x))]
    [] op.o = "jobj" -> [x EXCEPT !.b = Body("sized", "len", ObjJson), !.h = One(@, HeadOf(x))]
\* what an operation may be applied to, and what it leaves
Legal1(ph, op) == IF op.o = "again" THEN ph = "built" ELSE ph = "building"
Phase(op) == IF op.o \in Finish THEN "built" ELSE "building"
\* the headers that framing owns
Framing == {"content-length", "transfer-encoding", "connection", "date", "server"}
Plain(h) == SelectSeq(h, LAMBDA e : e.l \notin Framing)
=============================================================================
