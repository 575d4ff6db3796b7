---- MODULE LogText ----
(* Log levels, filters and the rendering of one log line. A level is a number
   0..6 (trace .. fatal, off); a text is a sequence of bytes. *)
EXTENDS Text
Levels == 0..6
Off == 6
LevelText(l) ==
  CASE l = 0 -> <<84,82,65,67,69>> [] l = 1 -> <<68,69,66,85,71>> [] l = 2 -> <<73,78,70,79>>
    [] l = 3 -> <<87,65,82,78,73,78,71>> [] l = 4 -> <<69,82,82,79,82>> [] l = 5 -> <<70,65,84,65,76>>
    [] OTHER -> <<85,78,75,78,79,87,78>>
(* the level a text names, in any case; anything else switches logging off *)
LevelOf(s) == LET hit == { l \in 0..5 : EqCi(s, LevelText(l)) } IN
  IF hit = {} THEN Off ELSE CHOOSE l \in hit : TRUE
(* filters: the set of levels they admit; `off' is never admitted *)
Listed(ls) == { ls[i] : i \in DOMAIN ls } \ {Off}
AtLeast(l) == { k \in Levels : k >= l } \ {Off}
All == AtLeast(0)
FromEnv(isSet, text) == IF isSet THEN AtLeast(LevelOf(text)) ELSE {}
(* ---- numbers and dates ---- *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
PadLeft(s, w, c) == IF Len(s) >= w THEN s ELSE [i \in 1..(w - Len(s)) |-> c] \o s
PadRight(s, w, c) == IF Len(s) >= w THEN s ELSE s \o [i \in 1..(w - Len(s)) |-> c]
Num2(n) == PadLeft(Dec(n), 2, 48)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE YearOf(_, _), MonthOf(_, _, _)
(* <<year, days left>> for a day number counted from 1970-01-01 *)
YearOf(y, d) == IF d < 0 THEN YearOf(y - 1, d + YearDays(y - 1))
                ELSE IF d >= YearDays(y) THEN YearOf(y + 1, d - YearDays(y)) ELSE <<y, d>>
MonthOf(y, m, d) == IF d >= MonthDays(y, m) THEN MonthOf(y, m + 1, d - MonthDays(y, m)) ELSE <<m, d + 1>>
Civil(d) == LET a == YearOf(1970, d) b == MonthOf(a[1], 1, a[2]) IN <<a[1], b[1], b[2]>>
Ymd(d) == LET c == Civil(d) IN PadLeft(Dec(c[1]), 4, 48) \o <<45>> \o Num2(c[2]) \o <<45>> \o Num2(c[3])
Hm(s) == Num2(s \div 3600) \o <<58>> \o Num2((s \div 60) % 60)
Hms(s) == Hm(s) \o <<58>> \o Num2(s % 60)
(* ---- one line ---- *)
Newline(n) == CASE n = 0 -> <<10>> [] n = 1 -> <<13, 10>> [] n = 2 -> <<13>>
FileOnly(f) == LET cut == { i \in DOMAIN f : f[i] \in {47, 92} } IN
  IF cut = {} THEN f ELSE SubSeq(f, (CHOOSE i \in cut : \A j \in cut : j <= i) + 1, Len(f))
FileName(full, f) == IF full THEN f ELSE FileOnly(f)
Esc == <<27, 91>>
(* the opening escape of the colour of a level: "38;2;r;g;b" *)
Rgb(l) == CASE l = 0 -> <<255,255,255>> [] l = 1 -> <<0,255,255>> [] l = 2 -> <<50,205,50>> [] l = 3 -> <<255,255,0>>
            [] l = 4 -> <<255,0,0>> [] l = 5 -> <<255,0,255>> [] OTHER -> <<0,0,0>>
Num3(n) == PadLeft(Dec(n), 3, 48)
Fg(c) == Esc \o <<51,56,59,50,59>> \o Num3(c[1]) \o <<59>> \o Num3(c[2]) \o <<59>> \o Num3(c[3]) \o <<109>>
Reset == Esc \o <<48,109>>
Bold == Esc \o <<49,109>>
Underline == Esc \o <<52,109>>
Open(style, l) == CASE style = 1 -> Fg(Rgb(l)) [] style = 2 -> Bold
                    [] style = 6 /\ l >= 4 -> Underline \o Fg(<<255,0,0>>) [] OTHER -> <<>>
(* styling surrounds the level and nothing else, and what opens closes *)
Styled(style, l) == IF Open(style, l) = <<>> THEN LevelText(l) ELSE Open(style, l) \o LevelText(l) \o Reset
(* a record and a configuration are records; a pattern is a sequence of
   fields (strings) and literal texts *)
Field(f, cfg, r) ==
  CASE f = "TIME" -> Ymd(r.day) \o <<84>> \o Hms(r.sec) \o <<90>>
    [] f = "TIMEM" -> Ymd(r.day) \o <<32>> \o Hm(r.sec)
    [] f = "LV" -> Styled(cfg.style, r.lv)
    [] f = "MSG" -> r.msg [] f = "LINE" -> r.line [] f = "COL" -> r.col
    [] f = "FILE" -> FileName(cfg.full, r.file) [] f = "FUNC" -> r.func
    [] f = "LINE6" -> PadLeft(r.line, 6, 32) [] f = "FUNC12" -> PadRight(r.func, 12, 32)
    [] f = "MSG5" -> SubSeq(r.msg, 1, IF Len(r.msg) < 5 THEN Len(r.msg) ELSE 5)
Item(x, cfg, r) == IF x.f = "lit" THEN x.t ELSE Field(x.f, cfg, r)
RECURSIVE RenderFrom(_, _, _, _)
RenderFrom(pat, cfg, r, i) == IF i > Len(pat) THEN <<>> ELSE Item(pat[i], cfg, r) \o RenderFrom(pat, cfg, r, i + 1)
Line(pat, cfg, r) == RenderFrom(pat, cfg, r, 1) \o Newline(cfg.nl)
====
