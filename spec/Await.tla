------------------------------- MODULE Await -------------------------------
(* What a coroutine sees that awaits asynchronous operations through
   use_awaitable, alone and combined with || and &&.  An operation completes
   with a value or with an error code; awaiting it yields exactly that, as an
   expected, and never throws.
     any(l, r)  is decided by the side that is complete first, whether it
                succeeded or failed; the operations of the other side that
                still wait are cancelled, and the result is ready when they
                have completed
     all(l, r)  is complete when both are, with both results
   Trees are awaited one after another; the operations of a tree start when it
   is awaited.  An operation is [t |-> "op", k, f]: its number and what it does
   when it is cancelled ("hear": completes with operation_canceled, "deaf":
   nothing), or "imm": it completes as soon as it is started.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Emit
CONSTANTS Programs,       \* sequences of trees
          Outcomes,       \* texts: "ok", or a code
          MayCancel       \* whether the coroutine itself may be cancelled
VARIABLES prog, at, ops, win, hist, cancelled
vars == <<prog, at, ops, win, hist, cancelled>>

RECURSIVE OpsOf(_)
OpsOf(t) == IF t.t = "op" THEN {t} ELSE OpsOf(t.l) \cup OpsOf(t.r)
Ks(t) == {o.k : o \in OpsOf(t)}
AllKs(p) == UNION {Ks(p[i]) : i \in DOMAIN p}
Flag(p, k) == (CHOOSE o \in UNION {OpsOf(p[i]) : i \in DOMAIN p} : o.k = k).f

\* the inner nodes of a tree, by path
RECURSIVE Paths(_)
Paths(t) == IF t.t = "op" THEN {} ELSE {<<>>} \cup {<<1>> \o p : p \in Paths(t.l)} \cup {<<2>> \o p : p \in Paths(t.r)}
RECURSIVE Sub(_, _)
Sub(t, p) == IF p = <<>> THEN t ELSE Sub(IF p[1] = 1 THEN t.l ELSE t.r, Tail(p))

\* o: state of the operations; w: deciders of the any nodes that have one
RECURSIVE Done(_, _, _, _)
Done(t, p, o, w) == CASE t.t = "op" -> o[t.k].s = "done"
                      [] OTHER -> Done(t.l, p \o <<1>>, o, w) /\ Done(t.r, p \o <<2>>, o, w)
\* the any nodes that are to be decided
Open(t, o, w) == {p \in Paths(t) : Sub(t, p).t = "any" /\ p \notin DOMAIN w
                     /\ (Done(Sub(t, p).l, p \o <<1>>, o, w) \/ Done(Sub(t, p).r, p \o <<2>>, o, w))}
Aborted == "s125"
\* an operation is told to cancel; to be told twice means no more than once
Tell(o, yes) == IF ~yes THEN o ELSE IF o.f = "hear" THEN [o EXCEPT !.s = "done", !.r = Aborted, !.told = TRUE] ELSE [o EXCEPT !.told = TRUE]
RECURSIVE Settle(_, _)
Settle(t, s) ==        \* s: [o, w, c], c the operations told to cancel
  IF Open(t, s.o, s.w) = {} THEN s
  ELSE LET p == CHOOSE p \in Open(t, s.o, s.w) : \A q \in Open(t, s.o, s.w) : Len(q) <= Len(p)
           n == Sub(t, p)
           side == IF Done(n.l, p \o <<1>>, s.o, s.w) THEN 1 ELSE 2
           told == {k \in Ks(IF side = 1 THEN n.r ELSE n.l) : s.o[k].s = "wait" /\ ~s.o[k].told} IN
       Settle(t, [o |-> [k \in DOMAIN s.o |-> Tell(s.o[k], k \in told)],
                  w |-> s.w @@ [q \in {p} |-> side], c |-> s.c \cup told])
\* the result of a complete tree, as a sequence of tokens
Tok(t, k, r) == <<[t |-> t, k |-> k, r |-> r]>>
RECURSIVE Render(_, _, _, _)
Render(t, p, o, w) ==
  CASE t.t = "op" -> Tok("op", t.k, o[t.k].r)
    [] t.t = "all" -> Tok("&", 0, "") \o Render(t.l, p \o <<1>>, o, w) \o Render(t.r, p \o <<2>>, o, w)
    [] t.t = "any" -> IF w[p] = 1 THEN Tok("0", 0, "") \o Render(t.l, p \o <<1>>, o, w) ELSE Tok("1", 0, "") \o Render(t.r, p \o <<2>>, o, w)

\* after a change: results, and the start of what comes next
RECURSIVE Advance(_, _, _, _)
Advance(p, i, s, ob) ==       \* ob: [st, told, res, exc]
  LET s1 == Settle(p[i], s)
      ob1 == [ob EXCEPT !.told = @ \cup s1.c] IN
  IF ~Done(p[i], <<>>, s1.o, s1.w) THEN [i |-> i, o |-> s1.o, w |-> s1.w, ob |-> ob1]
  ELSE LET ob2 == [ob1 EXCEPT !.res = Append(@, Render(p[i], <<>>, s1.o, s1.w))] IN
       IF i = Len(p) THEN [i |-> i + 1, o |-> s1.o, w |-> s1.w, ob |-> ob2]
       ELSE IF s.x THEN [i |-> Len(p) + 1, o |-> s1.o, w |-> s1.w, ob |-> [ob2 EXCEPT !.exc = TRUE]]
       ELSE Advance(p, i + 1,
              [o |-> [k \in DOMAIN s1.o |-> IF k \notin Ks(p[i + 1]) THEN s1.o[k] ELSE IF s1.o[k].f = "imm" THEN [s1.o[k] EXCEPT !.s = "done"] ELSE [s1.o[k] EXCEPT !.s = "wait"]],
               w |-> <<>>, c |-> {}, x |-> s.x], [ob2 EXCEPT !.st = @ \cup Ks(p[i + 1])])
Nothing == [st |-> {}, told |-> {}, res |-> <<>>, exc |-> FALSE]

Init == /\ prog \in Programs /\ at = 0 /\ win = <<>> /\ hist = <<>> /\ cancelled = FALSE
        /\ LET ks == AllKs(prog)  im == {k \in ks : Flag(prog, k) = "imm"} IN
           \E r \in [im -> Outcomes] : ops = [k \in ks |-> [s |-> "idle", r |-> IF k \in im THEN r[k] ELSE "", f |-> Flag(prog, k), told |-> FALSE]]
Step(a, k, r, s, i, ob) ==
  LET n == Advance(prog, i, s, ob) IN
  /\ at' = n.i /\ ops' = n.o /\ win' = n.w /\ UNCHANGED prog
  /\ hist' = Append(hist, [a |-> a, k |-> k, r |-> r, ob |-> n.ob])
Run == /\ at = 0 /\ UNCHANGED cancelled
       /\ Step("run", 0, "", [o |-> [k \in DOMAIN ops |-> IF k \notin Ks(prog[1]) THEN ops[k] ELSE IF ops[k].f = "imm" THEN [ops[k] EXCEPT !.s = "done"] ELSE [ops[k] EXCEPT !.s = "wait"]],
                              w |-> <<>>, c |-> {}, x |-> FALSE], 1, [Nothing EXCEPT !.st = Ks(prog[1])])
Complete(k, r) == /\ at > 0 /\ ops[k].s = "wait" /\ UNCHANGED cancelled
                  /\ Step("done", k, r, [o |-> [ops EXCEPT ![k] = [@ EXCEPT !.s = "done", !.r = r]], w |-> win, c |-> {}, x |-> cancelled], at, Nothing)
RECURSIVE NoAny(_)
NoAny(t) == t.t = "op" \/ (t.t = "all" /\ NoAny(t.l) /\ NoAny(t.r))
Cancel == /\ MayCancel /\ ~cancelled /\ at \in DOMAIN prog /\ NoAny(prog[at]) /\ cancelled' = TRUE
          /\ LET told == {k \in DOMAIN ops : ops[k].s = "wait" /\ ~ops[k].told} IN
             Step("cancel", 0, "", [o |-> [k \in DOMAIN ops |-> Tell(ops[k], k \in told)], w |-> win, c |-> {}, x |-> TRUE],
                  at, [Nothing EXCEPT !.told = told])
Over == at > Len(prog)
Next == ~Over /\ (Run \/ Cancel \/ \E k \in DOMAIN ops, r \in Outcomes : Complete(k, r))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every operation that was started has completed when the result is there
Whole == Over => \A k \in DOMAIN ops : ops[k].s # "wait"
\* one result for every tree, unless the coroutine was cancelled before
Results == LET n == Len(SelectSeq([i \in DOMAIN hist |-> Len(hist[i].ob.res)], LAMBDA x : x > 0)) IN Over /\ ~cancelled => n >= 1 /\ n <= Len(prog)
\* what a result names is what the operation completed with
RECURSIVE Flat(_)
Flat(h) == IF h = <<>> THEN {} ELSE UNION {{h[1].ob.res[i][j] : j \in DOMAIN h[1].ob.res[i]} : i \in DOMAIN h[1].ob.res} \cup Flat(Tail(h))
Faithful == \A x \in Flat(hist) : x.t = "op" => ops[x.k].s = "done" /\ ops[x.k].r = x.r
\* nothing is cancelled but the losers of a decision, or everything
Losers == \A i \in DOMAIN hist : hist[i].ob.told # {} => hist[i].a = "cancel" \/ \E t \in {prog[j] : j \in DOMAIN prog} : ~NoAny(t)
Ends == <>Over
EmitInv == Over => Emit([p |-> prog, pre |-> [k \in {k \in DOMAIN ops : ops[k].f = "imm"} |-> ops[k].r], h |-> hist])
=============================================================================
