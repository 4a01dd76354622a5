----------------------------- MODULE TraceEval -----------------------------
(***************************************************************************)
(* Trace checker for evaluations of the equilibrium and the stiffness of a *)
(* model at given displacements, in any order, with occasional commits of  *)
(* the material history.                                                   *)
(* Trace: d (definition), f (load, per node), fc (constant load), sv0      *)
(* (history), ev: [k = "G"/"W": U, lpf, g, r, lam, s, N, sv]               *)
(*               [k = "K": U, K (reduced), sv]                             *)
(*               [k = "F": U, KF (full, node x node blocks)]               *)
(*               [k = "D": U, p, h, rp, rm, col] central difference        *)
(***************************************************************************)
EXTENDS Truss, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, sv, out
vars == <<tid, k, sv, out>>
T == Traces[tid]
d == T.d
E == T.ev[k]
NE == Len(d.el)
NN == Len(d.X)
Stop(c) == PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o c) /\ out' = c /\ UNCHANGED <<tid, k, sv>>
Init == tid \in 1..Len(Traces) /\ k = 1 /\ sv = Traces[tid].sv0 /\ out = ""
Plasticity == \E e \in 1..NE : d.el[e].mat = 2

NearF(a, b, S) == FNear(a, b, FMul(FTen(9), S))
VNearF(u, v, S) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : NearF(u[i], v[i], S)
\* elastic elements keep their history, whatever it is; plastic ones follow the law
SameState(S, given, before, commit) ==
  \A e \in 1..NE :
    IF d.el[e].mat = 2 /\ commit THEN FNear(given[e][1], S[e].sv[1], FTen(9)) /\ FNear(given[e][2], S[e].sv[2], FTen(11))
    ELSE given[e] = before[e]

Forces ==
  LET S == States(d, E.U, sv)
      sc == FAdd(ForceScale(S), FAdd(FMaxSeq(Reduce(d, T.fc)), FMul(FAbs(E.lpf), FMaxSeq(Reduce(d, T.f)))))
      r == Internal(d, S)
      ext == [n \in 1..NN |-> VAdd(T.fc[n], VScale(E.lpf, T.f[n]))]
  IN IF ~(Len(E.lam) = NE /\ \A e \in 1..NE : FNear(E.lam[e], S[e].lam, FTen(11))) THEN Stop("stretch")
     ELSE IF ~(\A e \in 1..NE : NearF(E.s[e], S[e].s, FAdd(FAbs(S[e].s), d.el[e].E))) THEN Stop("stress")
     ELSE IF ~(\A e \in 1..NE : NearF(E.N[e], S[e].N, FAdd(FAbs(S[e].N), FMul(d.el[e].E, d.el[e].A)))) THEN Stop("axial")
     ELSE IF ~(Len(E.r) = NN /\ \A n \in 1..NN : VNearF(E.r[n], r[n], sc)) THEN Stop("internal")
     ELSE IF ~VNearF(E.g, Reduce(d, [n \in 1..NN |-> VSub(ext[n], r[n])]), sc) THEN Stop("residual")
     ELSE IF Plasticity /\ ~SameState(S, E.sv, sv, E.k = "W") THEN Stop(IF E.k = "W" THEN "state-commit" ELSE "state-trial")
     ELSE k' = k + 1 /\ sv' = E.sv /\ UNCHANGED <<tid, out>>

\* at the yield point the slope is not defined
NearKink(S) == \E e \in 1..NE : d.el[e].mat = 2 /\ FNear(S[e].kink, FZero, FMul(FTen(9), FAdd(FOne, d.el[e].E)))
StiffScale(S) == FMaxSeq([e \in 1..NE |-> FAdd(FDiv(FMul(d.el[e].E, d.el[e].A), S[e].L), FAbs(S[e].q))])
Stiff ==
  LET S == States(d, E.U, sv)
      B == Blocks(d, S)
      FL == FreeList(d)
      sc == StiffScale(S)
      KB == TLCEval([m \in 1..NN |-> [n \in 1..NN |-> StiffnessBlock(d, B, m, n)]])
  IN IF NearKink(S) THEN k' = k + 1 /\ UNCHANGED <<tid, sv, out>>
     ELSE IF E.k = "F"
     THEN IF ~(\A m \in 1..NN : \A n \in 1..NN : \A i \in 1..3 : VNearF(E.KF[m][n][i], KB[m][n][i], sc)) THEN Stop("stiffness-full")
          ELSE k' = k + 1 /\ UNCHANGED <<tid, sv, out>>
     ELSE IF Len(E.K) # Len(FL) THEN Stop("stiffness-size")
     ELSE IF ~(\A a \in 1..Len(FL) : \A b \in 1..Len(FL) : NearF(E.K[a][b], E.K[b][a], sc)) THEN Stop("stiffness-symmetry")
     ELSE IF ~(\A a \in 1..Len(FL) : \A b \in 1..Len(FL) :
                 NearF(E.K[a][b], KB[FL[a][1]][FL[b][1]][FL[a][2]][FL[b][2]], sc)) THEN Stop("stiffness")
     ELSE IF Plasticity /\ E.sv # sv THEN Stop("state-trial")
     ELSE k' = k + 1 /\ UNCHANGED <<tid, sv, out>>

\* the stiffness is the derivative of the internal forces
FullDir(p) == LET t == FreeList(d)[p]
              IN [n \in 1..NN |-> [i \in 1..3 |-> IF <<n, i>> = t THEN E.h ELSE FZero]]
Deriv ==
  LET dU == TLCEval(FullDir(E.p))
      S0 == States(d, E.U, sv)
      Sp == States(d, [n \in 1..NN |-> VAdd(E.U[n], dU[n])], sv)
      Sm == States(d, [n \in 1..NN |-> VSub(E.U[n], dU[n])], sv)
      smooth == \A e \in 1..NE : d.el[e].mat = 2 => (FSgn(S0[e].kink) = FSgn(Sp[e].kink) /\ FSgn(S0[e].kink) = FSgn(Sm[e].kink))
      sc == StiffScale(S0)
  IN IF smooth /\ ~(\A a \in 1..Len(E.col) :
                      FNear(FSub(E.rp[a], E.rm[a]), FMul(FMulInt(E.h, 2), E.col[a]), FMul(FMul(E.h, FTen(4)), sc)))
     THEN Stop("stiffness-derivative")
     ELSE k' = k + 1 /\ UNCHANGED <<tid, sv, out>>

Next == /\ out = ""
        /\ IF k > Len(T.ev) THEN Stop("ok")
           ELSE IF E.k \in {"G", "W"} THEN Forces
           ELSE IF E.k = "D" THEN Deriv ELSE Stiff
Spec == Init /\ [][Next]_vars
=============================================================================
