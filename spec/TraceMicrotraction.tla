-------------------------- MODULE TraceMicrotraction ------------------------
(* Recorded evaluations of the real microtraction law.                       *)
EXTENDS Microtraction, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, s
vars == <<run, pos, s>>
Init == run \in 1..Len(Runs) /\ pos = 1 /\ s = [dim |-> 0]
Ev == Runs[run][pos]

Setup(dim, angles, dirs, normals) ==
  [dim |-> dim,
   sys |-> RForce([c \in 1..Len(angles) |->
             LET R == Rotation(dim, angles[c]) IN
             [a \in 1..Len(dirs) |-> SlipSystem(dim, R, dirs[a], normals[a])]])]
Z == "1e-12"
Column(m, q) == RForce([a \in 1..Len(m) |-> m[a][q]])
Size(v) == RSqrt(RDot(v, v))

Step ==
  /\ s' = IF Ev.e = "setup" THEN Setup(Ev.dim, Ev.angles, Ev.dirs, Ev.normals) ELSE s
  /\ CASE Ev.e = "setup" -> TRUE
       [] Ev.e = "same" -> Ev.exc = TRUE          \* no boundary within a crystal
       [] Ev.exc -> FALSE
       (* moduli at every point of a face                                    *)
       [] Ev.e = "moduli" ->
            /\ Len(Ev.intra) = Len(Ev.normals) /\ Len(Ev.inter) = Len(Ev.normals)
            /\ \A q \in 1..Len(Ev.normals) :
               \A C \in {Trails(s.sys[Ev.c], Ev.normals[q])}, N \in {Trails(s.sys[Ev.n], Ev.normals[q])} :
               /\ MClose(Ev.intra[q], MScale("-1.0", Intra(R1, R1, C)), Z, Z)
               /\ MClose(Ev.inter[q], Inter(R1, R1, C, N), Z, Z)
       (* everything at one point                                            *)
       [] Ev.e = "point" ->
            \A C \in {Trails(s.sys[Ev.c], Ev.normal)}, N \in {Trails(s.sys[Ev.n], Ev.normal)} :
            \A cur \in {Column(Ev.cur, Ev.q)}, nei \in {Column(Ev.nei, Ev.q)} :
            \A k \in {RDiv(Ev.modulus, Ev.chr)} :
            /\ \A a \in 1..Len(cur) :
                 RClose(Ev.traction[a], Traction(Ev.modulus, Ev.chr, C, N, cur, nei, a), Z,
                        RMul(RMul("1e-12", k), RAdd(Size(cur), Size(nei))))
            /\ MClose(Ev.intra, Intra(Ev.modulus, Ev.chr, C), Z, RMul(Z, k))
            /\ MClose(Ev.inter, Inter(Ev.modulus, Ev.chr, C, N), Z, RMul(Z, k))
            /\ RClose(Ev.energy, Energy(Ev.modulus, C, N, cur, nei), Z,
                      RMul(RMul("1e-12", Ev.modulus), RSq(RAdd(Size(cur), Size(nei)))))
Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
