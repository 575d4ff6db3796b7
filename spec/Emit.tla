---- MODULE Emit ----
(* Output channel of the specifications: one JSON record per line. *)
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
Emit(x) == PrintT(ToJson(x))
====
