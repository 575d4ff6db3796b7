---- MODULE LoggerTrace ----
(* Judges histories of the real logger. *)
EXTENDS Logger, TLC
VARIABLE c
INSTANCE TraceCheck WITH Ok <- Judge
====
