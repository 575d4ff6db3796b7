----------------------------- MODULE Extractors ------------------------------
(* What a handler's arguments are for a request, or which error answers it.
   A request is [path, query, ct, body, st, my]: the parameters of the route
   in order, the pairs of the query text, the media type of the body (or none),
   the body (text, or broken framing), whether the route has a state, and the
   header the user-defined extractor wants.                                   *)
EXTENDS FromString, QueryText
A == <<97>>
B == <<98>>
C == <<99>>
Fld(n, t) == [n |-> n, t |-> t]
\* the fields of the structures and tuples the harness declares
Fields(k) == CASE k = "pt0" -> << >>
               [] k = "pt1" -> <<Fld(A, "i8")>>
               [] k = "pt2" -> <<Fld(A, "str"), Fld(B, "bool")>>
               [] k = "ps1" -> <<Fld(A, "i8")>>
               [] k = "ps2" -> <<Fld(A, "str"), Fld(B, "u8")>>
               [] k = "q1" -> <<Fld(A, "i32")>>
               [] k = "q2" -> <<Fld(B, "str"), Fld(A, "u8")>>
               [] k = "q3" -> <<Fld(A, "bool"), Fld(B, "str"), Fld(C, "i64")>>
               [] k = "f1" -> <<Fld(A, "i32")>>
               [] k = "f2" -> <<Fld(B, "str"), Fld(A, "u8")>>
               [] OTHER -> << >>
PathKinds == {"pt0", "pt1", "pt2", "ps1", "ps2", "pinfo"}
QueryKinds == {"q1", "q2", "q3", "qmap"}
FormKinds == {"f1", "f2"}
BodyKinds == FormKinds \cup {"json", "str", "vec", "chars"}
Width(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16 [] t \in {"i32", "u32"} -> 32 [] OTHER -> 64
\* a text as a value of a type: <<ok, value>>
Conv(t, s) == IF t = "str" THEN <<TRUE, [k |-> "s", s |-> s]>>
  ELSE LET r == IF t = "bool" THEN BoolOf(s) ELSE IntOf(s, Width(t), t \in {"i8", "i16", "i32", "i64"}) IN
       <<r.k = "v", [k |-> "n", neg |-> r.neg, d |-> r.d]>>
Value(v) == [ok |-> TRUE, v |-> v, status |-> 0, msg |-> ""]
Fail(st, m) == [ok |-> FALSE, v |-> << >>, status |-> st, msg |-> m]
Texts(pairs, n) == {e[2] : e \in {pairs[i] : i \in {i \in DOMAIN pairs : pairs[i][1] = n}}}
LastOf(pairs, n) == LET at == {i \in DOMAIN pairs : pairs[i][1] = n} IN pairs[CHOOSE i \in at : \A j \in at : i >= j][2]
NamesOf(pairs) == {pairs[i][1] : i \in DOMAIN pairs}
\* a structure from named texts; the last of equal names counts
Struct(fs, pairs) ==
  IF \E i \in DOMAIN fs : fs[i].n \notin NamesOf(pairs) \/ ~Conv(fs[i].t, LastOf(pairs, fs[i].n))[1]
  THEN Fail(400, "keys") ELSE Value([i \in DOMAIN fs |-> Conv(fs[i].t, LastOf(pairs, fs[i].n))[2]])
Tuple(fs, pairs) == IF \E i \in DOMAIN fs : ~Conv(fs[i].t, pairs[i][2])[1] THEN Fail(400, "keys")
  ELSE Value([i \in DOMAIN fs |-> Conv(fs[i].t, pairs[i][2])[2]])
PathNames(pairs) == Cardinality(NamesOf(pairs))
\* essences: "form", "json"; anything else is another type or none
Body(req) == IF req.body.k = "bad" THEN Fail(400, "read") ELSE Value(<<[k |-> "s", s |-> req.body.t]>>)
Arg(k, req) ==
  CASE k \in {"pt0", "pt1", "pt2"} -> IF Len(req.path) # Len(Fields(k)) THEN Fail(400, "numbers") ELSE Tuple(Fields(k), req.path)
    [] k \in {"ps1", "ps2"} -> IF Len(req.path) # Len(Fields(k)) THEN Fail(500, "numbers") ELSE Struct(Fields(k), req.path)
    [] k = "pinfo" -> Value([i \in DOMAIN req.path |-> [k |-> "s", s |-> req.path[i][2]]])
    [] k \in {"q1", "q2", "q3"} -> IF Cardinality(NamesOf(req.query)) # Len(Fields(k)) THEN Fail(400, "numbers") ELSE Struct(Fields(k), req.query)
    [] k = "qmap" -> Value(<<[k |-> "m", m |-> {<<n, LastOf(req.query, n)>> : n \in NamesOf(req.query)}]>>)
    [] k \in {"f1", "f2"} ->
         IF req.ct # "form" THEN Fail(400, "ctform")
         ELSE IF req.body.k = "bad" THEN Fail(400, "read")
         ELSE IF ~WellFormed(req.body.t) THEN Fail(400, "format")
         ELSE LET ps == Pairs(req.body.t) IN
              IF Cardinality(NamesOf(ps)) # Len(Fields(k)) THEN Fail(400, "numbers") ELSE Struct(Fields(k), ps)
    [] k = "json" -> IF req.ct # "json" THEN Fail(400, "ctjson")
                     ELSE IF req.body.k = "bad" THEN Fail(400, "read")
                     ELSE IF req.body.j = "" THEN Fail(400, "format") ELSE Value(<<[k |-> "j", j |-> req.body.j]>>)
    [] k \in {"str", "vec", "chars"} -> Body(req)
    [] k = "state" -> IF req.st THEN Value(<<[k |-> "j", j |-> "7"]>>) ELSE Fail(500, "state")
    [] k = "my" -> IF req.my THEN Value(<<[k |-> "j", j |-> "m"]>>) ELSE Fail(423, "my")
    [] OTHER -> Value(<< >>)
\* what a handler returns becomes a response: status and media type
Respond(r) == CASE r = "response" -> <<201, "text/html">>
                [] r \in {"string", "varS", "expV"} -> <<200, "text/plain">>
                [] r \in {"vector", "varV"} -> <<200, "application/octet-stream">>
                [] r = "expE" -> <<409, "text/x-error">>
                [] OTHER -> <<203, "text/x-own">>
\* the handler runs with every value, or the first argument that fails answers
Results(sig, req) == [i \in DOMAIN sig |-> Arg(sig[i], req)]
Outcome(sig, ret, req) == LET rs == Results(sig, req) bad == {i \in DOMAIN rs : ~rs[i].ok} IN
  IF bad = {} THEN [run |-> TRUE, vs |-> [i \in DOMAIN rs |-> rs[i].v], status |-> Respond(ret)[1], msg |-> Respond(ret)[2], at |-> 0]
  ELSE LET f == CHOOSE i \in bad : \A j \in bad : i <= j IN
       [run |-> FALSE, vs |-> << >>, status |-> rs[f].status, msg |-> rs[f].msg, at |-> f]
=============================================================================
