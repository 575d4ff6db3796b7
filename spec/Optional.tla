---- MODULE Optional ----
(* optional<T> as a state machine over two objects x, y.
   slot: [h |-> "v" | "e", n |-> Int]; "e" = empty (n = 0); n = -1 moved-from.
   kT: "trk", "triv", "mo", "ref", "void".  op as in Expected. *)
EXTENDS Integers, Sequences
V(n) == [h |-> "v", n |-> n]
Empty == [h |-> "e", n |-> 0]
Res(k, n) == [k |-> k, n |-> n]
None == Res("-", 0)
Bool(b) == Res("b", IF b THEN 1 ELSE 0)
Movable(k) == k \in {"trk", "mo"}
MovedSlot(kT, s) == IF s.h = "v" /\ Movable(kT) THEN [s EXCEPT !.n = -1] ELSE s
Taken(kT, s, c) == IF c = 2 THEN MovedSlot(kT, s) ELSE s
Mutators == {"dc", "nc", "cc", "cm", "kc", "km", "cv", "ci", "ac", "am", "ka", "kb", "an", "sc", "sm", "av", "em", "sw", "fs", "rs", "mk"}
Compare == {"eq", "ne", "lt", "le", "gt", "ge", "ss"}
CompareV == {"veq", "vne", "vlt", "vle", "vgt", "vge", "weq", "wne", "wlt", "wle", "wgt", "wge"}
Observers == {"val", "der", "vor", "at", "oe", "tr", "bo", "eqn", "ssn"} \cup Compare \cup CompareV
HasArg == {"cv", "ci", "av", "em", "vor", "mk"} \cup CompareV
Copying == {"cc", "kc", "ac", "sc", "ka"}
Available(kT, x, y, o, c, a) ==
  /\ \/ o \in {"val", "der", "at", "tr"} /\ (kT \in {"ref", "void"} => c = 1)
     \/ o \in {"vor", "oe"} /\ c \in (IF kT \in {"ref", "void"} THEN {1} ELSE {1, 2})
     \/ o \notin {"val", "der", "at", "tr", "vor", "oe"} /\ c = 0
  /\ (a \in {1, 2} /\ o \in HasArg) \/ (a = 0 /\ o \notin HasArg)
  /\ kT = "mo" => o \notin Copying /\ (o \in {"oe", "vor"} => c = 2)
  /\ kT = "void" => o \notin {"cv", "av", "vor", "mk", "kc", "km", "ka", "kb", "ss"} \cup CompareV /\ (o \in {"ci", "em"} => a = 1)
  /\ kT = "ref" => o \notin {"ci", "mk", "km", "kb"}
  /\ o = "der" => x.h = "v"
Val(kT, a) == IF kT = "void" THEN V(0) ELSE V(a)
(* the order of optionals: empty below every value *)
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Cmp(p, q) == IF p.h = "e" THEN (IF q.h = "e" THEN 0 ELSE -1)
             ELSE IF q.h = "e" THEN 1 ELSE Sgn(p.n - q.n)
Rel(o, s) == CASE o = "eq" -> s = 0 [] o = "ne" -> s # 0 [] o = "lt" -> s < 0
               [] o = "le" -> s <= 0 [] o = "gt" -> s > 0 [] o = "ge" -> s >= 0
Base(o) == CASE o \in {"veq", "weq"} -> "eq" [] o \in {"vne", "wne"} -> "ne" [] o \in {"vlt", "wlt"} -> "lt"
             [] o \in {"vle", "wle"} -> "le" [] o \in {"vgt", "wgt"} -> "gt" [] OTHER -> "ge"
ValueFirst == {"weq", "wne", "wlt", "wle", "wgt", "wge"}
Apply(kT, x, y, op) ==
  LET o == op.o  c == op.c  a == op.a
      st(nx, ny, r) == [x |-> nx, y |-> ny, r |-> r]
      tk == Taken(kT, x, c)
      add(n, d) == IF kT = "void" THEN d ELSE n + d
  IN CASE o \in {"dc", "nc", "an", "rs"} -> st(Empty, y, None)
       [] o \in {"cc", "kc", "km", "ac", "ka", "kb"} -> st(y, y, None)
       [] o \in {"cm", "am"} -> st(y, MovedSlot(kT, y), None)
       [] o \in {"sc", "sm"} -> st(x, y, None)
       [] o \in {"cv", "ci", "av", "em", "mk"} -> st(Val(kT, a), y, None)
       [] o \in {"sw", "fs"} -> st(y, x, None)
       [] o = "val" -> IF x.h = "v" THEN st(tk, y, Res("n", x.n)) ELSE st(x, y, Res("t", 0))
       [] o = "der" -> st(tk, y, Res("n", x.n))
       [] o = "vor" -> IF x.h = "v" THEN st(tk, y, Res("n", x.n)) ELSE st(x, y, Res("n", a))
       [] o = "at" -> IF x.h = "v" THEN st(tk, y, IF x.n = 1 THEN Res("e", 0) ELSE Res("v", add(x.n, 10)))
                      ELSE st(x, y, Res("e", 0))
       [] o = "oe" -> IF x.h = "v" THEN st(tk, y, Res("v", x.n))
                      ELSE st(x, y, IF kT = "void" THEN Res("v", 0) ELSE Res("v", 2))
       [] o = "tr" -> IF x.h = "v" THEN st(tk, y, IF kT = "void" THEN Res("v", 0) ELSE Res("v", x.n + 20)) ELSE st(x, y, Res("e", 0))
       [] o = "bo" -> st(x, y, Bool(x.h = "v"))
       [] o = "eqn" -> st(x, y, Bool(x.h = "e"))
       [] o = "ssn" -> st(x, y, Res("n", IF x.h = "v" THEN 1 ELSE 0))
       [] o = "ss" -> st(x, y, Res("n", Cmp(x, y)))
       [] o \in CompareV -> st(x, y, Bool(Rel(Base(o), IF o \in ValueFirst THEN Cmp(V(a), x) ELSE Cmp(x, V(a)))))
       [] OTHER -> st(x, y, Bool(Rel(o, Cmp(x, y))))
(* emplace destroys the old content first, so a throwing constructor leaves
   the optional empty; every other operation leaves the old state *)
Thrown(kT, x, y, op, n) ==
  /\ n.r.k = "X" /\ n.y = y
  /\ \/ n.x = x /\ op.o # "em"
     \/ op.o = "em" /\ n.x = Empty
     \/ op.o = "em" /\ n.x = x
     \/ op.o \in Observers /\ n.x = Taken(kT, x, op.c)
StepOk(kT, x, y, op, armed, n) ==
  \/ n = Apply(kT, x, y, op)
  \/ armed /\ Thrown(kT, x, y, op, n)
====
