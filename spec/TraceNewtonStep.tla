--------------------------- MODULE TraceNewtonStep ---------------------------
(* Recorded time steps of the real solver, judged by the specification of    *)
(* the strategies, the line search and the strip.                            *)
EXTENDS NewtonStep, LineSearch, Strip, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos,
          c, m,      \* configuration and mesh
          s,         \* state of the strategy
          x, r,      \* current iterate and its residual
          trial,     \* the last linear solution: base, update, line search
          set,       \* inactive slips of a rate-independent step
          start,     \* start value and committed solution of the step
          rows,      \* rows the log has to contain
          stats      \* rows of the statistics
data == <<c, m, s, x, r, trial, set, start, rows, stats>>
vars == <<run, pos, data>>

NoTrial == [open |-> FALSE]
Nothing == [none |-> TRUE]

Init ==
  /\ run \in 1..Len(Runs) /\ pos = 1
  /\ c = Nothing /\ m = Nothing /\ s = Nothing /\ x = <<>> /\ r = <<>>
  /\ trial = NoTrial /\ set = [active |-> <<>>, inactive |-> <<>>]
  /\ start = Nothing /\ rows = <<>> /\ stats = <<>>

Ev == Runs[run][pos]

-----------------------------------------------------------------------------
Strategy(cfg) == [kind |-> cfg.strategy, n |-> cfg.nmax, loops |-> cfg.loops]
(* settings of the whole system, the displacements and the slips             *)
Kinds == [all |-> 1, macro |-> 2, reduced |-> 2, micro |-> 3]
NormOf(v, k) == CASE k = 1 -> Norm(v) [] k = 2 -> Norm(Select(v, m.u)) [] OTHER -> Norm(Select(v, m.g))
Converged(v) ==
  <<RLt(NormOf(v, 2), c.tol[2]), RLt(NormOf(v, 3), c.tol[3]), RLt(NormOf(v, 1), c.tol[1])>>

(* the same vector up to rounding                                            *)
SameOn(v, w, idx) == \A a \in {Select(v, idx)}, b \in {Select(w, idx)} :
                       RCloseSeq(a, b, "1e-11", RMul("1e-12", RMaxAbs(b)))
Same(v, w) == SameOn(v, w, m.u) /\ SameOn(v, w, m.g)
Along(v, base, lam, u) ==
  /\ \A w \in {RAxpy(base, lam, u)} : SameOn(v, w, m.u) /\ SameOn(v, w, m.g)

-----------------------------------------------------------------------------
(* the log                                                                   *)
Norms(v) == <<NormOf(v, 1), NormOf(v, 2), NormOf(v, 3)>>
FirstRow(v) == [n |-> 0, loose |-> FALSE, l |-> 0, us |-> <<R0, R0, R0>>, rs |-> Norms(v)]
IterationRow ==
  [n |-> IF s.c.kind = "embracing" /\ s.last \in Displacements THEN s.total ELSE s.it,
   loose |-> trial.loose,
   l |-> trial.ls.n,
   us |-> [k \in 1..3 |-> RMul(trial.lam, NormOf(trial.u, k))],
   rs |-> Norms(r)]
RowMatches(text, row) ==
  /\ RClose(text[1], row.n, R0, R0)
  /\ row.loose \/ RClose(text[3], row.l, R0, R0)
  /\ \A k \in 1..3 : /\ row.loose \/ RClose(text[3 + k], row.us[k], "2e-6", "1e-13")
                     /\ RClose(text[6 + k], row.rs[k], "2e-6", RMul("1e-6", c.tol[1]))

-----------------------------------------------------------------------------
(* the step length of the present trial is final: the line search, if any,   *)
(* accepts it                                                                *)
Searching == trial.open /\ c.ls[trial.k]
Objective == Merit(NormOf(r, trial.k))
NearThreshold == RClose(Objective, RAdd(trial.ls.f0, RMul(trial.ls.alpha, RMul(trial.lam, Slope(trial.ls)))),
                        "1e-9", "1e-300")
MaySettle == Searching /\ ~trial.loose => \/ LSAccepts(trial.ls, Objective, trial.lam)
                          \/ NearThreshold
MayShorten == Searching /\ (~LSAccepts(trial.ls, Objective, trial.lam) \/ (trial.ls.n <= trial.ls.nmax /\ NearThreshold))
Settled == IF trial.open THEN Append(rows, IterationRow) ELSE rows

(* the update is so small that the length is not visible in the iterate: it  *)
(* is left open then                                                         *)
Invisible == RLe(RMaxAbs(trial.u), RMul("1e-9", RMaxAbs(trial.base)))
(* the length found in the data, of the direction of the update              *)
LengthOf(v) ==
  LET u == trial.u
  IN  RDiv(RDot(RAxpy(v, "-1.0", trial.base), u), RDot(u, u))
LengthMatches(lam) ==
  /\ RLe(RMul("0.0999", trial.lam), lam) /\ RLe(lam, RMul("0.5001", trial.lam))
  /\ \/ RLt(trial.lam, "1e-4")
     \/ RClose(lam, LSNext(trial.ls, Objective, trial.lam), "1e-4", R0)

(* the first iterate of a step, or of iterations which start again: the      *)
(* start value of the step, slips which do not yield as committed            *)
Starts(v) ==
  \A idx \in {m.u, m.g} : \A tol \in {RMul("1e-12", RMaxAbs(Select(start.init, idx)))} :
    \A i \in {idx[k] : k \in 1..Len(idx)} :
      m.locked[i] \/ RClose(v[i], IF \E k \in 1..Len(set.inactive) : set.inactive[k] = i THEN start.old[i]
                                 ELSE start.init[i], "1e-11", tol)

(* start of the slips of a slip loop                                         *)
SlipsStart(v) ==
  \A i \in {m.g[k] : k \in 1..Len(m.g)} :
    RClose(v[i],
           IF \E k \in 1..Len(set.inactive) : set.inactive[k] = i THEN start.old[i]
           ELSE IF c.reset THEN start.init[i] ELSE x[i],
           "1e-11", RMul("1e-12", RMaxAbs(Select(v, m.g))))

-----------------------------------------------------------------------------
Residual ==
  /\ RCloseSeq(Ev.r, Ev.fresh, "1e-9", RAdd(RMul("1e-9", RMaxAbs(Ev.fresh)), RMul("1e-6", c.tol[1])))
  /\ x' = Ev.x /\ r' = Ev.r
  /\ LET ok == Converged(Ev.r)
     IN  CASE x = <<>> ->                        \* first iterate of a step or of a restart
                Starts(Ev.x) = TRUE /\ s' = NSEvaluate(s, ok) /\ UNCHANGED <<trial, rows>>
           [] trial.open /\ ~s.known ->          \* the full update
                /\ Along(Ev.x, trial.base, R1, trial.u)
                /\ s' = NSEvaluate(s, ok) /\ UNCHANGED <<trial, rows>>
           [] Same(Ev.x, x) ->
                /\ trial' = IF Searching THEN [trial EXCEPT !.loose = @ \/ Invisible] ELSE trial
                /\ s' = NSEvaluate(s, ok) /\ UNCHANGED rows
           [] OTHER ->
                IF s.last \in Displacements /\ SameOn(Ev.x, x, m.u)
                THEN /\ NSMayEnterSlips(s) /\ MaySettle
                     /\ SlipsStart(Ev.x) = TRUE
                     /\ rows' = Settled /\ trial' = NoTrial
                     /\ s' = NSEvaluate(NSEnterSlips(s), ok)
                ELSE /\ Searching /\ (trial.loose \/ MayShorten)
                     /\ \E lam \in {LengthOf(Ev.x)} :
                          /\ Along(Ev.x, trial.base, lam, trial.u)
                          /\ Invisible \/ LengthMatches(lam)
                          /\ trial' = [trial EXCEPT !.lam = lam, !.loose = @ \/ Invisible,
                                                    !.ls = LSReduce(trial.ls, Objective, trial.lam)]
                     /\ s' = NSEvaluate(s, ok) /\ UNCHANGED rows
  /\ UNCHANGED <<c, m, set, start, stats>>

(* the linear system: equations of the unknowns which are neither prescribed *)
(* nor inactive; of tied unknowns one carries the equation of all            *)
Solved(ju, rhs, idx) ==
  LET tol == RAdd(RMul("1e-7", RMaxAbs(rhs)), "1e-11")
      off == {set.inactive[k] : k \in 1..Len(set.inactive)}
      free == {i \in {idx[k] : k \in 1..Len(idx)} : ~m.locked[i] /\ i \notin off}
  IN  \A i \in free :
        \E k \in m.group[i] :
          /\ RClose(ju[k], rhs[k], R0, tol)
          /\ \A j \in m.group[i] : j # k => RClose(rhs[j], R0, R0, RMul("1e-12", RMaxAbs(rhs)))

(* prescribed and inactive unknowns keep their values, tied ones stay tied   *)
UpdateAdmissible(u, idx) ==
  LET tol == RMul("1e-12", RMaxAbs(u))
      off == {set.inactive[k] : k \in 1..Len(set.inactive)}
      on == {idx[k] : k \in 1..Len(idx)}
  IN  \A i \in 1..m.n :
        /\ (m.locked[i] \/ i \in off \/ i \notin on) => RClose(u[i], R0, R0, tol)
        /\ \A j \in m.group[i] : j > i => RClose(u[i], u[j], "1e-11", tol)

(* the matrix is that of the iterate, but for the displacement matrix of the *)
(* bouncing strategy, which is kept within a loop                            *)
MatrixKept == s.c.kind = "bouncing" /\ Ev.what = "macro" /\ c.deco

Solve ==
  /\ Same(Ev.x, x) /\ RCloseSeq(Ev.r, r, "1e-12", RMul("1e-12", RMaxAbs(r)))
  /\ MaySettle
  /\ LET enter == Ev.what = "micro" /\ s.last \in Displacements
         t == IF enter THEN NSEnterSlips(s) ELSE s
         k == Kinds[Ev.what]
         idx == CASE k = 1 -> m.u \o m.g [] k = 2 -> m.u [] OTHER -> m.g
     IN  /\ enter => NSMayEnterSlips(s) /\ SlipsStart(x) = TRUE
         /\ NSMaySolve(t, Ev.what)
         /\ s' = NSSolve(t, Ev.what)
         /\ Solved(Ev.ju, Ev.r, idx) = TRUE
         /\ UpdateAdmissible(Ev.u, idx) = TRUE
         /\ MatrixKept \/ RCloseSeq(Ev.jv, Ev.jvfresh, "1e-9", RMul("1e-9", RMaxAbs(Ev.jvfresh)))
         /\ trial' = [open |-> TRUE, loose |-> FALSE, k |-> k, base |-> Ev.x, u |-> Ev.u, lam |-> R1,
                      ls |-> LSReinit(LSNew(c.lsmax[k], c.lsalpha), Merit(NormOf(Ev.r, k)))]
         /\ rows' = IF s'.it = 1 /\ ~(s.c.kind = "embracing" /\ Ev.what = "reduced")
                    THEN Append(Settled, FirstRow(Ev.r)) ELSE Settled
  /\ UNCHANGED <<c, m, x, r, set, start, stats>>

(* a rate-independent step determines its yielding slips: a change after     *)
(* convergence starts the iterations again                                   *)
Determined ==
  /\ IF NSMayRestart(s)
     THEN /\ MaySettle
          /\ IF Ev.active = set.active THEN UNCHANGED <<s, x, r, trial, rows>>
             ELSE /\ s' = NSRestart(s) /\ x' = <<>> /\ r' = <<>>
                  /\ rows' = Settled /\ trial' = NoTrial
     ELSE IF s.last \in Displacements       \* the slips are iterated next
     THEN /\ NSMayEnterSlips(s) /\ MaySettle
          /\ rows' = Settled /\ trial' = NoTrial
          /\ UNCHANGED <<s, x, r>>
     ELSE UNCHANGED <<s, x, r, trial, rows>>
  /\ set' = [active |-> Ev.active, inactive |-> Ev.inactive]
  /\ UNCHANGED <<c, m, start, stats>>

Accept ==
  /\ s.end = "no" /\ MaySettle /\ NSMayAccept(s)
  /\ Same(Ev.x, x)
  /\ s' = NSAccept(s)
  /\ rows' = IF s.c.kind = "embracing" THEN Append(Settled, FirstRow(r)) ELSE Settled
  /\ stats' = Append(stats, [step |-> Len(stats) + 1,
                             n |-> CASE s.c.kind = "monolithic" -> s.it
                                     [] s.c.kind = "bouncing" -> s.loops
                                     [] OTHER -> s.total])
  /\ trial' = NoTrial
  /\ UNCHANGED <<c, m, x, r, set, start>>

Step ==
  CASE Ev.e = "config" -> c' = Ev /\ UNCHANGED <<m, s, x, r, trial, set, start, rows, stats>>
    [] Ev.e = "mesh" -> m' = StripMesh(c, Ev.dofs) /\ UNCHANGED <<c, s, x, r, trial, set, start, rows, stats>>
    [] Ev.e = "step" ->
         /\ (Len(stats) > 0 => s.end = "accepted")
         /\ s' = NSBegin(Strategy(c)) /\ x' = <<>> /\ r' = <<>> /\ trial' = NoTrial
         /\ start' = [old |-> Ev.old]
         /\ set' = [active |-> <<>>, inactive |-> <<>>]
         /\ UNCHANGED <<c, m, rows, stats>>
    [] Ev.e = "start" ->
         /\ Same(Ev.init, Ev.x) = TRUE
         /\ start' = [old |-> start.old, init |-> Ev.x] /\ UNCHANGED <<c, m, s, x, r, trial, set, rows, stats>>
    [] Ev.e = "residual" -> Residual
    [] Ev.e = "solve" -> Solve
    [] Ev.e = "determined" -> Determined
    [] Ev.e = "applied" -> UNCHANGED data
    [] Ev.e = "accept" -> Accept
    [] Ev.e = "end" -> s.end = "accepted" /\ UNCHANGED data
    [] Ev.e = "fail" ->
         /\ Ev.limit /\ MaySettle /\ NSMayFail(s)
         /\ s' = NSFail(s) /\ rows' = Settled
         /\ UNCHANGED <<c, m, x, r, trial, set, start, stats>>
    [] Ev.e = "files" ->
         /\ Len(Ev.log) = Len(rows)
         /\ \A k \in 1..Len(rows) : RowMatches(Ev.log[k], rows[k]) = TRUE
         /\ Len(Ev.statistics) = Len(stats)
         /\ \A k \in 1..Len(stats) : /\ RClose(Ev.statistics[k][1], stats[k].step, R0, R0)
                                     /\ RClose(Ev.statistics[k][2], stats[k].n, R0, R0)
         /\ UNCHANGED data

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
