---- MODULE Expected ----
(* expected<T, E> as a state machine over two objects x, y.
   slot: [h |-> "v" | "e", n |-> Int]; n = -1 marks a moved-from content.
   kT: "trk" (class type), "triv" (int), "mo" (move-only class), "ref", "void"
   kE: "trk", "triv"
   op: [o, c, a]; c = 0 &, 1 const&, 2 &&, 3 const&&; a = argument. *)
EXTENDS Integers, Sequences
V(n) == [h |-> "v", n |-> n]
E(n) == [h |-> "e", n |-> n]
Res(k, n) == [k |-> k, n |-> n]
None == Res("-", 0)
Bool(b) == Res("b", IF b THEN 1 ELSE 0)
Movable(k) == k \in {"trk", "mo"}
Left(k, n) == IF Movable(k) THEN -1 ELSE n
MovedSlot(kT, kE, s) == [s EXCEPT !.n = Left(IF s.h = "v" THEN kT ELSE kE, @)]
(* the state of x after its content was taken with value category c *)
Taken(kT, kE, s, c) == IF c = 2 THEN MovedSlot(kT, kE, s) ELSE s
Mutators == {"dc", "cc", "cm", "kc", "km", "cv", "ci", "cu", "xc", "xm", "ac", "am", "sc", "sm", "av", "uc", "um", "em", "sw", "fs"}
Observers == {"val", "der", "err", "vor", "eor", "at", "oe", "tr", "te", "eq", "ne", "ev", "eu", "bo"}
HasArg == {"cv", "ci", "cu", "xc", "xm", "av", "uc", "um", "em", "vor", "eor", "ev", "eu"}
Copying == {"cc", "kc", "ac", "sc"}
Available(kT, kE, x, y, o, c, a) ==
  /\ (o \in {"val", "der", "err", "at", "oe", "tr", "te"}) \/ (o \in {"vor", "eor"} /\ c \in {1, 2}) \/ c = 0
  /\ (a \in {1, 2} /\ o \in HasArg) \/ (a = 0 /\ o \notin HasArg)
  /\ kT = "mo" => o \notin Copying /\ (o \in {"oe", "te", "vor"} => c = 2)
  /\ kT = "ref" => o # "dc"
  /\ kT = "void" => o \notin {"cv", "av", "vor", "ev"} /\ (o \in {"ci", "em"} => a = 1)
  /\ o = "der" => x.h = "v"
  /\ o = "err" => x.h = "e"
Val(kT, a) == IF kT = "void" THEN V(0) ELSE V(a)
(* [x, y, r] after the operation *)
Apply(kT, kE, x, y, op) ==
  LET o == op.o  c == op.c  a == op.a
      st(nx, ny, r) == [x |-> nx, y |-> ny, r |-> r]
      tk == Taken(kT, kE, x, c)
      kV == IF kT = "ref" THEN "triv" ELSE kT
      add(n, d) == IF kT = "void" THEN d ELSE n + d
  IN CASE o = "dc" -> st(V(0), y, None)
       [] o \in {"cc", "kc", "ac"} -> st(y, y, None)
       [] o \in {"cm", "am"} -> st(y, MovedSlot(kV, kE, y), None)
       [] o = "km" -> st(y, y, None)
       [] o \in {"sc", "sm"} -> st(x, y, None)
       [] o \in {"cv", "ci", "av", "em"} -> st(Val(kT, a), y, None)
       [] o \in {"cu", "xc", "xm", "uc", "um"} -> st(E(a), y, None)
       [] o \in {"sw", "fs"} -> st(y, x, None)
       [] o = "val" -> IF x.h = "v" THEN st(Taken(kV, kE, x, c), y, Res("n", x.n))
                       ELSE st(IF kT = "ref" THEN x ELSE tk, y, Res("t", x.n))
       [] o = "der" -> st(Taken(kV, kE, x, c), y, Res("n", x.n))
       [] o = "err" -> st(tk, y, Res("n", x.n))
       [] o = "vor" -> IF x.h = "v" THEN st(Taken(kV, kE, x, c), y, Res("n", x.n)) ELSE st(x, y, Res("n", a))
       [] o = "eor" -> IF x.h = "e" THEN st(tk, y, Res("n", x.n)) ELSE st(x, y, Res("n", a))
       [] o = "at" -> IF x.h = "v" THEN st(Taken(kV, kE, x, c), y, IF x.n = 1 THEN Res("e", 7) ELSE Res("v", add(x.n, 10)))
                      ELSE st(tk, y, Res("e", x.n))
       [] o = "oe" -> IF x.h = "v" THEN st(Taken(kV, kE, x, c), y, Res("v", x.n))
                      ELSE st(tk, y, IF x.n = 1 THEN Res("v", IF kT = "void" THEN 0 ELSE 2) ELSE Res("e", x.n + 10))
       [] o = "tr" -> IF x.h = "v" THEN st(Taken(kV, kE, x, c), y, Res("v", add(x.n, 20))) ELSE st(tk, y, Res("e", x.n))
       [] o = "te" -> IF x.h = "v" THEN st(Taken(kV, kE, x, c), y, Res("v", x.n)) ELSE st(tk, y, Res("e", x.n + 30))
       [] o = "eq" -> st(x, y, Bool(x = y))
       [] o = "ne" -> st(x, y, Bool(x # y))
       [] o = "ev" -> st(x, y, Bool(x = V(a)))
       [] o = "eu" -> st(x, y, Bool(x = E(a)))
       [] o = "bo" -> st(x, y, Bool(x.h = "v"))
(* an operation of the contained type threw: the old state is kept, except
   that an observer on an rvalue may already have moved the content out *)
Thrown(kT, kE, x, y, op, n) ==
  /\ n.r.k = "X" /\ n.y = y
  /\ \/ n.x = x
     \/ op.o \in Observers /\ n.x = Taken(kT, kE, x, op.c)
StepOk(kT, kE, x, y, op, armed, n) ==
  \/ n = Apply(kT, kE, x, y, op)
  \/ armed /\ Thrown(kT, kE, x, y, op, n)
====
