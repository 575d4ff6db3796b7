-------------------------------- MODULE Wire --------------------------------
(* HTTP/1.x requests on the wire (RFC 9112): the decoder as an automaton that
   takes one byte at a time, so that segmentation cannot matter, and what a
   handler has to see of a decoded request.  Strings are sequences of bytes. *)
EXTENDS Text, TLC

CRLF == <<13, 10>>
TChar(c) == IsAlnum(c) \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
FChar(c) == c = 9 \/ c \in 32..126 \/ c \in 128..255
IsToken(s) == s # <<>> /\ AllIn(s, TChar)
Blank(c) == c = 32 \/ c = 9
OwsTrim(s) == TrimBy(s, Blank)
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE LowerC(c) - 87
Index(s, D) == IF \E i \in DOMAIN s : s[i] \in D THEN CHOOSE i \in DOMAIN s : s[i] \in D /\ \A j \in 1..(i - 1) : s[j] \notin D ELSE 0
IsDec(s) == s # <<>> /\ AllIn(s, IsDigit)
DecVal(s) == FoldLeft(LAMBDA a, c : IF a > 100000000 THEN a ELSE a * 10 + c - 48, 0, s)
HexNum(s) == FoldLeft(LAMBDA a, c : IF a > 100000000 THEN a ELSE a * 16 + HexVal(c), 0, s)

(* names used below, lower case *)
ContentLength == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
TransferEncoding == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
Chunked == <<99,104,117,110,107,101,100>>
Connection == <<99,111,110,110,101,99,116,105,111,110>>
Close == <<99,108,111,115,101>>
KeepAlive == <<107,101,101,112,45,97,108,105,118,101>>
Http1 == <<72,84,84,80,47,49,46>>     \* HTTP/1.

ValuesOf(hs, n) == LET x == SelectSeq(hs, LAMBDA h : Lower(h.n) = n) IN [i \in DOMAIN x |-> x[i].v]
Has(hs, n) == \E i \in DOMAIN hs : Lower(hs[i].n) = n
ListHas(hs, n, tok) == LET vs == ValuesOf(hs, n) IN \E i \in DOMAIN vs : LET p == SplitRaw(vs[i], {44}) IN \E j \in DOMAIN p : Lower(OwsTrim(p[j])) = tok
Keeps(ver, hs) == IF ver = 11 THEN ~ListHas(hs, Connection, Close) ELSE ListHas(hs, Connection, KeepAlive) /\ ~ListHas(hs, Connection, Close)

(* ------------------------------------------------------------ the decoder *)
\* ph: line hdr body size data dend trl | bad badbody grey end; msgs: complete requests;
\* cur: the line or body collected so far; why: reason of "bad"
D0 == [ph |-> "line", cur |-> <<>>, m |-> <<>>, t |-> <<>>, v |-> 0, hs |-> <<>>, left |-> 0, body |-> <<>>, msgs |-> <<>>, over |-> FALSE]
\* malformed: in the header block, or in a body (its handler runs and sees it fail)
Bad(d) == [d EXCEPT !.ph = IF @ \in {"line", "hdr"} THEN "bad" ELSE "badbody"]
BodyLimit == 1048576    \* the default of the server
Msg(d, body) == [m |-> d.m, t |-> d.t, v |-> d.v, hs |-> d.hs, body |-> body]
\* a complete request; nothing after a request that ends the connection counts
Done(d, body) == LET ms == Append(d.msgs, Msg(d, body)) IN
  IF Keeps(d.v, d.hs) THEN [D0 EXCEPT !.msgs = ms] ELSE [D0 EXCEPT !.ph = "end", !.msgs = ms]
ReqLine(d, s) ==
  LET a == Index(s, {32}) r == IF a = 0 THEN <<>> ELSE From(s, a + 1) b == Index(r, {32})
      m == SubSeq(s, 1, a - 1) t == SubSeq(r, 1, b - 1) v == From(r, b + 1) IN
  IF a = 0 \/ b = 0 THEN Bad(d)
  ELSE IF IsToken(m) /\ t # <<>> /\ AllIn(t, LAMBDA c : c \in 33..126 \cup 128..255) /\ Len(v) = 8 /\ StartsWith(v, Http1) /\ v[8] \in {48, 49}
       THEN [d EXCEPT !.ph = "hdr", !.cur = <<>>, !.m = m, !.t = t, !.v = IF v[8] = 48 THEN 10 ELSE 11]
       ELSE Bad(d)
LooksChunked(t) == \E i \in 0..(Len(t) - 7) : SubSeq(t, i + 1, i + 7) = Chunked
TokenList(v) == LET p == SplitRaw(v, {44}) IN \A i \in DOMAIN p : LET x == OwsTrim(p[i]) IN x = <<>> \/ IsToken(x)
HeadEnd(d) ==
  LET cl == ValuesOf(d.hs, ContentLength) te == ValuesOf(d.hs, TransferEncoding) IN
  IF Len(cl) > 1 \/ Len(te) > 1 \/ (cl # <<>> /\ te # <<>>) THEN Bad(d)
  \* a list that starts or ends with "chunked" but is something else: unspecified
  ELSE IF te # <<>> /\ Lower(te[1]) # Chunked /\ LooksChunked(Lower(te[1])) THEN [d EXCEPT !.ph = "grey"]
  ELSE IF \E i \in DOMAIN d.hs : Lower(d.hs[i].n) = Connection /\ ~TokenList(d.hs[i].v) THEN Bad(d)
  ELSE IF te # <<>> THEN IF Lower(te[1]) = Chunked THEN [d EXCEPT !.ph = "size", !.cur = <<>>, !.body = <<>>] ELSE Bad(d)
  ELSE IF cl # <<>> THEN IF ~IsDec(cl[1]) \/ DecVal(cl[1]) > BodyLimit THEN Bad(d)
                         ELSE IF DecVal(cl[1]) = 0 THEN Done(d, <<>>)
                         ELSE [d EXCEPT !.ph = "body", !.cur = <<>>, !.left = DecVal(cl[1]), !.body = <<>>]
  ELSE Done(d, <<>>)
Field(s) == LET c == Index(s, {58}) IN [n |-> SubSeq(s, 1, c - 1), v |-> OwsTrim(From(s, c + 1))]
FieldOk(s) == LET c == Index(s, {58}) IN c > 0 /\ IsToken(SubSeq(s, 1, c - 1)) /\ AllIn(From(s, c + 1), FChar)
\* chunk-ext: *( BWS ";" BWS name [ BWS "=" BWS ( token / quoted-string ) ] )
Quoted(x) == Len(x) > 1 /\ x[1] = 34 /\ x[Len(x)] = 34 /\ AllIn(SubSeq(x, 2, Len(x) - 1), LAMBDA c : FChar(c) /\ c \notin {34, 92})
ExtOk(x) == LET e == Index(x, {61}) IN IF e = 0 THEN IsToken(OwsTrim(x))
            ELSE IsToken(OwsTrim(SubSeq(x, 1, e - 1))) /\ LET v == OwsTrim(From(x, e + 1)) IN IsToken(v) \/ Quoted(v)
\* cut at the semicolons that are not inside quotes
RECURSIVE SplitExt(_, _, _, _)
SplitExt(s, i, q, cur) == IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = 59 /\ ~q THEN <<cur>> \o SplitExt(s, i + 1, q, <<>>)
  ELSE SplitExt(s, i + 1, IF s[i] = 34 THEN ~q ELSE q, Append(cur, s[i]))
ExtsOk(s) == LET p == SplitExt(s, 1, FALSE, <<>>) IN \A i \in DOMAIN p : IF i = 1 THEN AllIn(p[1], Blank) ELSE ExtOk(p[i])
SizeLine(d, s) ==
  LET e == IF \E i \in DOMAIN s : ~IsHex(s[i]) THEN CHOOSE i \in DOMAIN s : ~IsHex(s[i]) /\ \A j \in 1..(i - 1) : IsHex(s[j]) ELSE Len(s) + 1
      n == SubSeq(s, 1, e - 1) x == From(s, e) IN
  IF n = <<>> \/ (x # <<>> /\ Blank(x[Len(x)])) \/ ~ExtsOk(x) THEN Bad(d)
  ELSE IF HexNum(n) = 0 THEN [d EXCEPT !.ph = "trl", !.cur = <<>>]
  ELSE [d EXCEPT !.ph = "data", !.cur = <<>>, !.left = HexNum(n)]
Line(d, s) ==    \* a line without its CRLF
  CASE d.ph = "line" -> ReqLine(d, s)
    [] d.ph = "hdr" -> IF s = <<>> THEN HeadEnd(d) ELSE IF FieldOk(s) THEN [d EXCEPT !.cur = <<>>, !.hs = Append(@, Field(s))] ELSE Bad(d)
    [] d.ph = "size" -> SizeLine(d, s)
    [] d.ph = "dend" -> IF s = <<>> THEN [d EXCEPT !.ph = "size", !.cur = <<>>] ELSE Bad(d)
    [] d.ph = "trl" -> IF s = <<>> THEN Done(d, d.body) ELSE IF FieldOk(s) THEN [d EXCEPT !.cur = <<>>] ELSE Bad(d)
Feed(d, b) ==
  CASE d.ph \in {"bad", "badbody", "grey", "end"} -> d
    [] d.ph \in {"body", "data"} ->
       LET e == [d EXCEPT !.body = Append(@, b), !.left = @ - 1] IN
       IF e.left > 0 THEN e ELSE IF d.ph = "body" THEN Done(e, e.body) ELSE [e EXCEPT !.ph = "dend", !.cur = <<>>]
    [] OTHER ->
       IF b = 10 THEN IF d.cur # <<>> /\ d.cur[Len(d.cur)] = 13 THEN Line(d, SubSeq(d.cur, 1, Len(d.cur) - 1)) ELSE Bad(d)
       ELSE IF d.cur # <<>> /\ d.cur[Len(d.cur)] = 13 THEN Bad(d)
       ELSE [d EXCEPT !.cur = Append(@, b)]
Decode(bytes) == FoldLeft(Feed, D0, bytes)
\* how a stream that ends here has ended
Ending(d) == CASE d.ph \in {"bad", "grey"} -> d.ph [] d.ph = "end" -> "end"
               [] d.ph = "line" /\ d.cur = <<>> -> "clean"
               [] d.ph \in {"line", "hdr"} -> "head"          \* in a header block
               [] OTHER -> "body"                             \* in a body: it runs, and sees the body fail

(* ------------------------------------------------ what a handler gets to see *)
Unres(c) == IsAlnum(c) \/ c \in {45, 46, 95, 126}
PChar(c) == Unres(c) \/ c \in {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 58, 64}
PctOk(s) == \A i \in DOMAIN s : s[i] = 37 => i + 2 <= Len(s) /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2])
RECURSIVE PctDec(_)
PctDec(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = 37 THEN <<HexVal(s[2]) * 16 + HexVal(s[3])>> \o PctDec(From(s, 4)) ELSE <<s[1]>> \o PctDec(Tail(s))
TPath(t) == LET q == Index(t, {63}) IN IF q = 0 THEN t ELSE SubSeq(t, 1, q - 1)
TQuery(t) == LET q == Index(t, {63}) IN IF q = 0 THEN <<>> ELSE From(t, q + 1)
TargetOk(t) == /\ t[1] = 47 /\ PctOk(t)
               /\ AllIn(TPath(t), LAMBDA c : PChar(c) \/ c \in {47, 37})
               /\ AllIn(TQuery(t), LAMBDA c : PChar(c) \/ c \in {47, 63, 37})
\* the query: name=value pairs, percent-decoded; the last of equal names wins
PlusSp(s) == [i \in DOMAIN s |-> IF s[i] = 43 THEN 32 ELSE s[i]]
QDec(s) == PctDec(PlusSp(s))
QPairs(q) == LET ps == SelectSeq(SplitRaw(q, {38}), LAMBDA p : Index(p, {61}) > 0) IN
             [i \in DOMAIN ps |-> LET e == Index(ps[i], {61}) IN <<QDec(SubSeq(ps[i], 1, e - 1)), QDec(From(ps[i], e + 1))>>]
Query(q) == LET ps == QPairs(q) IN SelectSeq([i \in DOMAIN ps |-> <<ps[i][1], ps[i][2], \E j \in DOMAIN ps : j > i /\ ps[j][1] = ps[i][1]>>], LAMBDA x : ~x[3])
See == <<47, 115, 101, 101, 47>>     \* "/see/"
\* the answer to one request: 400 for an invalid target, 404 for no route, or
\* the handler's, which tells what it saw
View(m, body) ==
  IF ~TargetOk(m.t) THEN [st |-> 400]
  ELSE LET p == PctDec(TPath(m.t)) IN
       IF ~StartsWith(p, See) THEN [st |-> 404]
       ELSE [st |-> 200, m |-> m.m, v |-> m.v, path |-> p, rest |-> From(p, 6), hs |-> m.hs, q |-> Query(TQuery(m.t)), body |-> body]
Head5 == <<72, 69, 65, 68>>
Answers(d) ==
  LET ms == [i \in DOMAIN d.msgs |-> View(d.msgs[i], d.msgs[i].body) @@ [keep |-> Keeps(d.msgs[i].v, d.msgs[i].hs), head |-> d.msgs[i].m = Head5, cut |-> FALSE]]
      e == Ending(d) IN
  IF e = "body" THEN Append(ms, View(Msg(d, <<>>), <<>>) @@ [keep |-> Keeps(d.v, d.hs), head |-> d.m = Head5, cut |-> TRUE])
  ELSE ms

(* ---------------------------------------------------------- the encoder *)
HexDig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexStr(_)
HexStr(n) == IF n < 16 THEN <<HexDig(n)>> ELSE HexStr(n \div 16) \o <<HexDig(n % 16)>>
RECURSIVE DecStr(_)
DecStr(n) == IF n < 10 THEN <<48 + n>> ELSE DecStr(n \div 10) \o <<48 + (n % 10)>>
\* r: m t v hs (with ows before and after each value) fr ("none" "cl" "ch") chunks ext trl
RenderHs(hs) == FlattenSeq([i \in DOMAIN hs |-> hs[i].n \o <<58>> \o hs[i].a \o hs[i].v \o hs[i].b \o CRLF])
Plain(n, v) == [n |-> n, v |-> v, a |-> <<32>>, b |-> <<>>]
AllHs(r) == CASE r.fr = "none" -> r.hs
              [] r.fr = "cl" -> Append(r.hs, Plain(ContentLength, DecStr(Len(FlattenSeq(r.chunks)))))
              [] OTHER -> Append(r.hs, Plain(TransferEncoding, Chunked))
Render(r) ==
  r.m \o <<32>> \o r.t \o <<32>> \o Http1 \o <<IF r.v = 10 THEN 48 ELSE 49>> \o CRLF \o RenderHs(AllHs(r)) \o CRLF
  \o CASE r.fr = "none" -> <<>>
       [] r.fr = "cl" -> FlattenSeq(r.chunks)
       [] OTHER -> FlattenSeq([i \in DOMAIN r.chunks |-> HexStr(Len(r.chunks[i])) \o r.ext \o CRLF \o r.chunks[i] \o CRLF]) \o <<48>> \o r.ext \o CRLF \o RenderHs(r.trl) \o CRLF
AsMsg(r) == [m |-> r.m, t |-> r.t, v |-> r.v, hs |-> LET h == AllHs(r) IN [i \in DOMAIN h |-> [n |-> h[i].n, v |-> h[i].v]],
             body |-> IF r.fr = "none" THEN <<>> ELSE FlattenSeq(r.chunks)]
=============================================================================
