----------------------------- MODULE TimeSteps -----------------------------
(* The committed solutions of a loading history and the start value of a     *)
(* step.  Committed solutions h has the fields old and oldold (sequences of  *)
(* numbers) and dtold, the size of the last step.                            *)
EXTENDS Real64, Sequences

TSInit(x0) == [old |-> x0, oldold |-> x0, dtold |-> R0]
TSCommit(h, x, dt) == [old |-> x, oldold |-> h.old, dtold |-> dt]

(* factor times the linear continuation of the last two solutions; nothing   *)
(* can be continued in the first step                                        *)
TSStart(h, dt, factor, skip) ==
  IF skip \/ REq(h.dtold, R0) THEN h.old
  ELSE RAxpy(h.old, RMul(factor, RDiv(dt, h.dtold)), RAxpy(h.old, "-1.0", h.oldold))
=============================================================================
