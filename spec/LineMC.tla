---- MODULE LineMC ----
(* L02: one log line for every configuration and record of the bounds. *)
EXTENDS LogText, Emit, TLC
CONSTANTS Patterns, Cfgs, Recs, Rows
VARIABLES c, r, Cfg, Rec
(* all configurations with a few records, a few configurations with all *)
(* Rows[i] is the set of records the i-th configuration is tried with *)
InitL == c \in DOMAIN Cfgs /\ r = 0 /\ Cfg = Cfgs[c] /\ Rec = Recs[1]
NextL == r = 0 /\ \E k \in Rows[c] : r' = k /\ Rec' = Recs[k] /\ UNCHANGED <<c, Cfg>>
Out == Line(Patterns[Cfg.pat], Cfg, Rec)
EmitInv == r # 0 => Emit([c |-> c, r |-> r, o |-> Out])
(* ---- laws ---- *)
Occurs(x, s) == { i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x }
Count(f) == Cardinality({ i \in DOMAIN Patterns[Cfg.pat] : Patterns[Cfg.pat][i].f = f })
Verbatim == Count("MSG") > 0 => Occurs(Rec.msg, Out) # {}
Located == /\ Count("LINE") > 0 => Occurs(Rec.line, Out) # {}
           /\ Count("FUNC") > 0 => Occurs(Rec.func, Out) # {}
Clean(s) == 27 \notin { s[i] : i \in DOMAIN s }
NoStray == Clean(Rec.msg) /\ Cfg.style \in {0, 3} => Clean(Out)
Balanced == Clean(Rec.msg) => (Out # <<>> /\ (Occurs(Reset, Out) = {} <=> Occurs(Esc, Out) = {}))
Ends == SubSeq(Out, Len(Out) - Len(Newline(Cfg.nl)) + 1, Len(Out)) = Newline(Cfg.nl)
(* the calendar: consecutive days differ by one day of one month *)
Calendar == LET a == Civil(Rec.day) b == Civil(Rec.day + 1) IN
   \/ b = <<a[1], a[2], a[3] + 1>>
   \/ b = <<a[1], a[2] + 1, 1>> /\ a[3] = MonthDays(a[1], a[2])
   \/ b = <<a[1] + 1, 1, 1>> /\ a[2] = 12 /\ a[3] = 31
====
