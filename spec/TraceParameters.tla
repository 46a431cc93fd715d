--------------------------- MODULE TraceParameters --------------------------
(* Recorded readings of real parameter files.                                *)
EXTENDS Parameters, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, prob, set, existing, got
vars == <<run, pos, prob, set, existing, got>>
Nothing == [nothing |-> TRUE]
Init == /\ run \in 1..Len(Runs) /\ pos = 1 /\ prob = "" /\ set = <<>> /\ existing = {}
        /\ got = Nothing
Ev == Runs[run][pos]

Step ==
  CASE Ev.e = "file" ->
         /\ prob' = Ev.prob /\ set' = Ev.set
         /\ existing' = {Ev.existing[i] : i \in 1..Len(Ev.existing)}
         /\ got' = Nothing
    [] Ev.e = "read" ->
         /\ LET ok == Accepted(prob, set)
                res == Resolve(prob, set) IN
            /\ Ev.exc # ok \/ (ok /\ Undecided(Settings(prob, res)))
            /\ ~Ev.exc => Agrees(prob, set, existing, Ev.got)
         /\ got' = Ev.got
         /\ UNCHANGED <<prob, set, existing>>
    (* the copy stored with the results says the same                        *)
    [] Ev.e = "reread" ->
         /\ Ev.exc = FALSE
         /\ Ev.got = got
         /\ UNCHANGED <<prob, set, existing, got>>
    (* no file: reported, and a file with the defaults is written            *)
    [] Ev.e = "missing" ->
         /\ Ev.exc = TRUE /\ Ev.written = TRUE
         /\ UNCHANGED <<prob, set, existing, got>>

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
