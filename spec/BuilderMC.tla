----------------------------- MODULE BuilderMC -------------------------------
EXTENDS Builder, Emit, TLC
CONSTANTS Kind,      \* "res", "req" or "tr"
          Stats, Vers, Names, Values, QNames, QValues, Texts, MaxH, MaxLen, Start
VARIABLES x, ph, hist
View == <<x, ph>>
Rec(o, l, n, v) == [o |-> o, d |-> "a", l |-> l, n |-> n, v |-> v]
Init == x = Start /\ ph = "building" /\ hist = << >>
Streams == IF Kind = "req" THEN {"text", "bytes", "stream"} ELSE {"text", "bytes", "stream", "chunked"}
Ops == {Rec("st", "", "", v) : v \in Stats}
  \cup (IF Kind = "req" THEN {} ELSE {Rec("ver", "", "", v) : v \in Vers})
  \cup {Rec(o, n[1], n[2], v) : o \in {"set", "ins"}, n \in Names, v \in Values}
  \cup (IF Kind = "req" THEN {Rec("era", n[1], n[2], "") : n \in Names} ELSE {})
  \cup (IF Kind = "res" THEN {} ELSE {Rec("q", "", n, v) : n \in QNames, v \in QValues})
  \cup {Rec(o, "", "", v) : o \in Streams, v \in Texts}
  \cup {Rec("json", "", "", v) : v \in {"j0", "j1", "j2", "j3"}}
  \cup {Rec(o, "", "", "") : o \in {"null", "jobj", "build", "again"}}
Next == \E op \in Ops : /\ Legal1(ph, op)
  /\ LET y == Do1(x, op) IN
     /\ Len(y.h) <= MaxH /\ Len(hist) < MaxLen
     /\ x' = y /\ ph' = Phase(op) /\ hist' = Append(hist, op)
     /\ Emit([ops |-> hist', x |-> y, ph |-> ph'])
\* finishing without a body changes nothing, setters touch their own part only
Frame == \A op \in Ops : LET y == Do1(x, op) IN
  /\ op.o # "st" => y.st = x.st
  /\ op.o # "ver" => y.ver = x.ver
  /\ op.o \notin {"set", "ins", "era", "json", "jobj"} => y.h = x.h
  /\ op.o # "q" => y.q = x.q
  /\ (op.o \notin Finish \ {"build"}) => y.b = x.b
  /\ y.aux = x.aux
  /\ op.o \in {"json", "jobj"} => Of(y.h, "content-type") = <<JsonType>>
=============================================================================
