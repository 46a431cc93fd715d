-------------------------- MODULE TraceCrystalFiles -------------------------
(* Recorded set-ups of real crystal data from real files.                    *)
EXTENDS CrystalFiles, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, s
vars == <<run, pos, s>>
Init == run \in 1..Len(Runs) /\ pos = 1 /\ s = [ready |-> FALSE]
Ev == Runs[run][pos]

Ok == Accepted(Ev.dim, Ev.crystals, Ev.angles, Ev.dirs, Ev.normals)
A == "1e-13"

Step ==
  CASE Ev.e = "init" ->
         /\ Ev.exc = ~Ok
         /\ s' = IF Ok THEN [ready |-> TRUE, dim |-> Ev.dim, crystals |-> Ev.crystals,
                             angles |-> DataLines(Ev.angles), dirs |-> DataLines(Ev.dirs),
                             normals |-> DataLines(Ev.normals)]
                 ELSE s
    [] Ev.e = "read" /\ ~s.ready -> Ev.exc = TRUE /\ Ev.ready = FALSE /\ s' = s
    [] Ev.e = "read" ->
         /\ Ev.exc = FALSE /\ Ev.ready = TRUE
         /\ Ev.n_crystals = s.crystals /\ Ev.n_slips = Len(s.dirs)
         /\ s' = s
    [] Ev.e = "crystal" ->
         /\ s.ready
         /\ MClose(Ev.R, Rotation(s.dim, s.angles[Ev.c]), A, A)
         /\ MClose(Ev.R3, Rotation3d(s.dim, s.angles[Ev.c]), A, A)
         /\ s' = s
    [] Ev.e = "slip" ->
         /\ s.ready
         /\ LET y == SlipSystem(s.dim, Rotation(s.dim, s.angles[Ev.c]), s.dirs[Ev.i], s.normals[Ev.i]) IN
            /\ RCloseSeq(Ev.dir, y.dir, A, A) /\ RCloseSeq(Ev.normal, y.normal, A, A)
            /\ RCloseSeq(Ev.orth, y.orth, A, A)
            /\ MClose(Ev.schmid, y.schmid, A, A) /\ MClose(Ev.sym, y.sym, A, A)
            /\ Ev.dirs = Ev.dir /\ Ev.normals = Ev.normal /\ Ev.syms = Ev.sym
         /\ s' = s
    [] Ev.e = "range" -> Ev.exc = TRUE /\ s' = s

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
