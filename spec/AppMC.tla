------------------------------- MODULE AppMC ---------------------------------
(* programs that build applications, statement by statement *)
EXTENDS App, Emit, TLC
CONSTANTS MinLen, MaxLen, Kinds, HKinds, ScopePaths, MaxRoutes, MaxMw, Rounds
VARIABLES env, steps, fin
vars == <<env, steps, fin>>
Init == env = << >> /\ steps = << >> /\ fin = << >>
Id == Len(steps) + 1
Stm(o, a, b, v) == [o |-> o, a |-> a, b |-> b, v |-> v]
NRoutes == Cardinality({i \in DOMAIN env : steps[i].o = "nr"})
Used == UNION {{s.a, s.b} : s \in {steps[i] : i \in DOMAIN steps}}
Do(val, stm) == env' = Append(env, val) /\ steps' = Append(steps, stm) /\ fin' = fin
Step == /\ fin = << >> /\ Len(steps) < MaxLen
        /\ \/ \E p \in ScopePaths : Do(NewScope(p), Stm("ns", 0, 0, ToString(p)))
           \/ NRoutes < MaxRoutes /\ \E k \in HKinds : Do(NewRoute(100 + NRoutes, k), Stm("nr", NRoutes, 0, k))
           \/ \E x \in DOMAIN env : Len(env[x].mw) < MaxMw /\ \E k \in Kinds : Do(Use(env[x], [id |-> Id, kind |-> k]), Stm("use", x, 0, k))
           \/ \E x \in DOMAIN env : \E t \in Types : Do(UseState(env[x], t, Id), Stm("st", x, 0, ToString(t)))
           \/ \E x \in DOMAIN env : env[x].k = "s" /\ \E y \in DOMAIN env : (y # x /\ RoutesOf(env[y]) # << >> /\ Len(env[x].rs) < 6)
                 /\ Do(Serve(env[x], env[y]), Stm("sv", x, y, ""))
\* the end: some values are served; every request of some rounds is answered
RECURSIVE Reqs(_, _, _, _)
Reqs(rs, n, cnt, acc) == IF n = 0 THEN acc
  ELSE LET RECURSIVE One(_, _, _)
           One(i, c, a) == IF i > Len(rs) THEN <<c, a>>
             ELSE LET e == Exec(rs[i], 1, c) IN One(i + 1, e.cnt, Append(a, [p |-> rs[i].p, log |-> e.log, end |-> e.end, status |-> e.status, tr |-> e.tr]))
           r == One(1, cnt, << >>) IN Reqs(rs, n - 1, r[1], acc \o r[2])
Zero == [i \in 1..MaxLen |-> 0]
Tops == {<<x>> : x \in DOMAIN env} \cup {<<x, y>> : x \in DOMAIN env, y \in DOMAIN env}
Vals(t) == [i \in DOMAIN t |-> env[t[i]]]
Caught(rs) == \A i \in DOMAIN rs : Exec(rs[i], 1, Zero).end = "ok"
Final == /\ fin = << >> /\ Len(steps) >= MinLen
         /\ \E t \in Tops : LET rs == Served(Vals(t)) IN
            /\ Len(env) \in {t[i] : i \in DOMAIN t} /\ rs # << >> /\ Distinct(rs) /\ Caught(rs)
            /\ (Len(t) = 2 => t[1] # t[2])
            /\ fin' = t /\ UNCHANGED <<env, steps>>
            /\ Emit([steps |-> steps, tops |-> t, reqs |-> Reqs(rs, Rounds, Zero, << >>)])
Next == Step \/ Final
\* every value keeps what it was
Persistent == [][SubSeq(env', 1, Len(env)) = env]_vars
AllRoutes == UNION {{RoutesOf(env[i])[j] : j \in DOMAIN RoutesOf(env[i])} : i \in DOMAIN env}
Onions == \A r \in AllRoutes : Onion(r, Zero)
\* each layer runs once per call it receives; what is outside a stop still closes
Balanced == \A r \in AllRoutes : LET e == Exec(r, 1, Zero) IN
  \A i \in DOMAIN r.mw : LET m == r.mw[i]
      opens == Cardinality({j \in DOMAIN e.log : e.log[j] = <<"+", m.id>>})
      calls == LET RECURSIVE Pow(_) Pow(k) == IF k = 0 THEN 1 ELSE (IF r.mw[k].kind = "twice" THEN 2 ELSE 1) * Pow(k - 1) IN Pow(i - 1)
      stopped == \E k \in 1..(i - 1) : r.mw[k].kind = "stop" IN
    (r.hk = "ok" /\ m.kind # "eh" /\ \A k \in DOMAIN r.mw : r.mw[k].kind # "late") =>
      opens = (IF stopped THEN 0 ELSE calls)
\* a state seen was registered on the route or a scope around it, and nothing nearer has the type
Nearest == \A r \in AllRoutes : \A t \in Types : LET id == Look(r, t) IN
  IF id = 0 THEN \A i \in DOMAIN r.st : \A e \in r.st[i] : e[1] # t
  ELSE \E i \in DOMAIN r.st : <<t, id>> \in r.st[i] /\ \A j \in 1..(i - 1) : \A e \in r.st[j] : e[1] # t
=============================================================================
