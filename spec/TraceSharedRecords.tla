------------------------- MODULE TraceSharedRecords -------------------------
(* Recorded use of the real storage on real meshes.  ids is the sequence of  *)
(* identities of the records a query returned; the first query of a face     *)
(* fixes them.                                                               *)
EXTENDS SharedRecords, TLC, Json, IOUtils, Sequences, Integers

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, mesh, st, ids
vars == <<run, pos, mesh, st, ids>>

NoMesh == [mat |-> <<>>, faces |-> {}]
Init == run \in 1..Len(Runs) /\ pos = 1 /\ mesh = NoMesh /\ st = SNew /\ ids = <<>>
Ev == Runs[run][pos]

AllIds(i) == UNION {{i[f][q] : q \in DOMAIN i[f]} : f \in DOMAIN i}
Distinct(s) == Cardinality({s[q] : q \in DOMAIN s}) = Len(s)

Jump(a, b) == RSqrt(RDot([i \in 1..Len(a) |-> RSub(a[i], b[i])],
                         [i \in 1..Len(a) |-> RSub(a[i], b[i])]))

Query ==
  IF ~SHas(st, Ev.a, Ev.b)
  THEN Ev.exc = TRUE /\ UNCHANGED ids
  ELSE LET f == Pair(Ev.a, Ev.b) IN
       /\ Ev.exc = FALSE
       /\ Len(Ev.ids) = Len(SGet(st, Ev.a, Ev.b))
       /\ Distinct(Ev.ids)
       /\ IF f \in DOMAIN ids
          THEN Ev.ids = ids[f] /\ UNCHANGED ids
          ELSE /\ \A q \in DOMAIN Ev.ids : Ev.ids[q] \notin AllIds(ids)
               /\ ids' = [g \in DOMAIN ids \cup {f} |-> IF g = f THEN Ev.ids ELSE ids[g]]

Value(t) == RClose(Ev.v, SGet(t, Ev.a, Ev.b)[Ev.q].v, "1e-14", R0)

Step ==
  CASE Ev.e = "mesh" ->
         /\ mesh' = [mat |-> Ev.mat, faces |-> {{p[1], p[2]} : p \in {Ev.faces[i] : i \in DOMAIN Ev.faces}}]
         /\ UNCHANGED <<st, ids>>
    [] Ev.e = "init" -> st' = SInit(st, mesh, Ev.nq) /\ UNCHANGED <<mesh, ids>>
    [] Ev.e = "query" -> Query /\ UNCHANGED <<mesh, st>>
    [] Ev.e = "set" ->
         st' = SSet(st, Ev.a, Ev.b, Ev.q, Ev.x) /\ Value(st') /\ UNCHANGED <<mesh, ids>>
    [] Ev.e = "announce" ->
         st' = SAnnounce(st, Ev.a, Ev.b, Ev.q) /\ Value(st') /\ UNCHANGED <<mesh, ids>>
    [] Ev.e = "update" ->
         /\ st' = SUpdate(st, Ev.a, Ev.b, Ev.q, Jump(Ev.x, Ev.y))
         /\ Value(st') /\ UNCHANGED <<mesh, ids>>
    [] Ev.e = "get" -> Value(st) /\ UNCHANGED <<mesh, st, ids>>

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
