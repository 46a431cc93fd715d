-------------------------------- MODULE MCRun --------------------------------
(* Every run of small loading programmes and output frequencies; a solution  *)
(* may fail, which ends the run.                                             *)
EXTENDS Runs, TLC

CONSTANTS Phases, Quarters, Cycles, Steps, Frequencies
VARIABLES c, r
vars == <<c, r>>

Programme(cyclic, skip, min, a, q, m) ==
  [cyclic |-> cyclic, skip |-> skip, max |-> "0.01", min |-> min, dur |-> "2.0", phase |-> "0.5", period |-> "3.0",
   n |-> a, nphase |-> a, nq |-> q, cycles |-> m]
Loads ==
  {Programme(FALSE, FALSE, R0, a, 1, 1) : a \in Steps}
  \cup {Programme(TRUE, skip, min, a, q, m) : skip \in BOOLEAN, min \in {R0, "0.004"}, a \in Phases, q \in Quarters, m \in Cycles}

Init ==
  /\ r = RunInit
  /\ \E l \in Loads, f \in Frequencies, g \in Frequencies \cup {0} :
       c = [load |-> l, outfreq |-> f, homogenization |-> g > 0, homfreq |-> IF g > 0 THEN g ELSE 1]
Begin == RunBegin(c, r) /\ r' = Solving(r)
Solve == r.stage = "solving" /\ r' = Solved(r)
Fail == r.stage = "solving" /\ r' = [r EXCEPT !.stage = "failed"]
Report == r.stage = "solved" /\ r' = Reported(c, r, R0)
Over == RunOver(c, r) /\ r' = [r EXCEPT !.stage = "over"]
Next == (Begin \/ Solve \/ Fail \/ Report \/ Over) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
N == NSteps(c.load)
OneRowPerStep == Len(r.shear) = r.k /\ Len(r.stress) = r.k /\ r.k <= N
Tabulated(s, f) ==
  /\ \A i \in 1..Len(s) : s[i] \in 1..r.k
  /\ \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1] /\ s[i + 1] - s[i] <= f
  /\ s # <<>> => s[1] <= f
Frequency == Tabulated(r.outputs, c.outfreq) /\ Tabulated(r.averages, c.homfreq)
Ceil(a, b) == (a + b - 1) \div b
End ==
  r.stage = "over" =>
    /\ r.k = N
    /\ RClose(TimeAfter(c.load, r.k), EndTime(c.load), "1e-14", R0)
    /\ r.outputs[Len(r.outputs)] = N /\ Len(r.outputs) = Ceil(N, c.outfreq)
    /\ c.homogenization => r.averages[Len(r.averages)] = N /\ Len(r.averages) = Ceil(N, c.homfreq)
    /\ ~c.homogenization => r.averages = <<>>
    /\ RClose(r.shear[N],
              IF ~c.load.cyclic THEN RMul(c.load.max, c.load.dur) ELSE IF c.load.skip THEN Mean(c.load) ELSE R0,
              "1e-12", "1e-15")
(* the steps fill the time without gaps                                      *)
Increasing ==
  \A k \in 0..(N - 1) :
    RClose(RAdd(TimeAfter(c.load, k), StepSize(c.load, k)), TimeAfter(c.load, k + 1), "1e-12", R0)
Bounded ==
  c.load.cyclic => \A k \in 1..r.k : RLe(R0, RAdd(r.shear[k], "1e-15")) /\ RLe(r.shear[k], RAdd(c.load.max, "1e-15"))
(* both ends of every cycle are reported                                     *)
Extremes ==
  r.stage = "over" /\ c.load.cyclic =>
    \A m \in 1..c.load.cycles :
      LET first == c.load.nphase + 4 * c.load.nq * (m - 1) IN
      /\ RClose(r.shear[first + c.load.nq], c.load.max, "1e-12", R0)
      /\ RClose(r.shear[first + 3 * c.load.nq], c.load.min, "1e-12", "1e-15")
Ends == <>(r.stage \in {"over", "failed"})
Moves ==
  <<r.stage, r'.stage>> \in {<<"built", "solving">>, <<"solving", "solved">>, <<"solving", "failed">>,
                           <<"solved", "reported">>, <<"reported", "solving">>, <<"reported", "over">>}
Order == [][Moves]_vars
=============================================================================
