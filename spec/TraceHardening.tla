--------------------------- MODULE TraceHardening ---------------------------
(* Recorded histories of real slip resistance records.                       *)
EXTENDS Hardening, TLC, Json, IOUtils, Sequences

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, h
vars == <<run, pos, h>>

Init == run \in 1..Len(Runs) /\ pos = 1 /\ h = HNew
Ev == Runs[run][pos]

(* all the ways to read the record agree with the specification              *)
Observed(s) ==
  /\ Ev.exc = FALSE
  /\ RCloseSeq(Ev.cur, s.cur, "1e-12", R0)
  /\ RCloseSeq(Ev.old, s.com, "1e-12", R0)
  /\ Ev.cur1 = Ev.cur /\ Ev.old1 = Ev.old
  /\ Len(Ev.cur) = s.n

Column(m, q) == [a \in 1..Len(m) |-> m[a][q + 1]]

Step ==
  IF Ev.e = "init"
  THEN h' = HInit(Ev.law, Ev.n, Ev.chr) /\ Observed(h')
  ELSE IF ~h.ready
  THEN Ev.exc = TRUE /\ h' = h            \* refused before set-up
  ELSE CASE Ev.e = "store" -> h' = HStore(h) /\ Observed(h')
         [] Ev.e = "reset" -> h' = HReset(h) /\ Observed(h')
         [] Ev.e = "read" -> h' = h /\ Observed(h)
         [] Ev.e = "update" ->
              /\ h' = HUpdate(h, Column(Ev.slips, Ev.q), Column(Ev.old_slips, Ev.q))
              /\ Observed(h')

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
