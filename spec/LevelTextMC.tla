---- MODULE LevelTextMC ----
(* L01: the level every text names. *)
EXTENDS LogText, GenStr, Emit, TLC
EmitInv == Emit([s |-> p, r |-> LevelOf(p)])
OnlyOwnLength == LevelOf(p) # Off => Len(p) = Len(LevelText(LevelOf(p)))
====
