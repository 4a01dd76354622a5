------------------------------ MODULE TraceJob ------------------------------
(***************************************************************************)
(* Trace checker for the results of a complete run: every reported         *)
(* increment against the reference model Truss and the sequencing of load  *)
(* cases, the record of accepted increments and the material history.      *)
(* Every broken clause of a trace is printed (not only the first one).     *)
(***************************************************************************)
EXTENDS Truss, Job, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
d == T.d
NN == Len(d.X)
NE == Len(d.el)
R == T.res[k]
P == T.res[k - 1]

NearF(a, b, S) == FNear(a, b, FMul(FTen(9), S))
MNearF(A, B, S) == Len(A) = Len(B) /\ \A n \in 1..Len(A) : Len(A[n]) = Len(B[n]) /\ \A i \in 1..Len(A[n]) : NearF(A[n][i], B[n][i], S)
Zero3 == [n \in 1..NN |-> VZero(3)]
SameU(A, B) == \A n \in 1..NN : VNear(A[n], B[n], FTen(12))
Final(s) == EndOf(T.res, s, FZero)
Const(s) == FoldLeft(LAMBDA acc, q : [n \in 1..NN |-> VAdd(acc[n], VScale(Final(q), d.F[q][n]))], Zero3, [q \in 1..(s - 1) |-> q])
Flatten(A) == FoldLeft(LAMBDA acc, v : acc \o v, <<>>, A)

First == \* the undeformed state
  (IF R.U # Zero3 \/ R.lpf # FZero \/ R.step # 1 THEN {"undeformed"} ELSE {})
  \cup (IF T.plastic /\ \E e \in 1..NE : R.sv[e] # Virgin THEN {"virgin"} ELSE {})

Increment ==
  LET prevU == P.U
      S == States(d, R.U, P.sv)
      r == Internal(d, S)
      fc == Const(R.step)
      sc == FAdd(ForceScale(S), FAdd(FMaxSeq(Flatten(fc)), FMul(FAbs(R.lpf), FMaxSeq(Flatten(d.F[R.step])))))
      g == Reduce(d, [n \in 1..NN |-> VSub(VAdd(fc[n], VScale(R.lpf, d.F[R.step][n])), r[n])])
      \* the residual norm is below the tolerance, up to rounding
      tol == FAdd(FMul(T.ftol, FAdd(FOne, FTen(3))), FMul(FTen(12), sc))
      FL == FreeList(d)
      kink == \E e \in 1..NE : d.el[e].mat = 2 /\ FNear(S[e].kink, FZero, FTen(6))
      B == Blocks(d, S)
      ksc == FMaxSeq([e \in 1..NE |-> FAdd(FDiv(FMul(d.el[e].E, d.el[e].A), S[e].L), FAbs(S[e].q))])
  IN UNION {
     IF ~FLe(Dot(g, g), FMul(tol, tol)) THEN {"equilibrium"} ELSE {},
     IF \E n \in 1..NN : \E i \in 1..3 : ~d.free[n][i] /\ R.U[n][i] # FZero THEN {"locked"} ELSE {},
     IF ~(Len(R.lam) = NE /\ \A e \in 1..NE : FNear(R.lam[e], S[e].lam, FTen(11))) THEN {"stretch"} ELSE {},
     IF ~(\A e \in 1..NE : NearF(R.s[e], S[e].s, FAdd(FAbs(S[e].s), d.el[e].E))) THEN {"stress"} ELSE {},
     IF ~(\A e \in 1..NE : NearF(R.N[e], S[e].N, FAdd(FAbs(S[e].N), FMul(d.el[e].E, d.el[e].A)))) THEN {"axial"} ELSE {},
     IF ~MNearF(R.r, r, sc) THEN {"internal"} ELSE {},
     IF T.plastic /\ \E e \in 1..NE : IF d.el[e].mat = 2
           THEN ~(FNear(R.sv[e][1], S[e].sv[1], FMul(FTen(9), FAdd(FOne, d.el[e].E))) /\ FNear(R.sv[e][2], S[e].sv[2], FTen(10)))
           ELSE R.sv[e] # P.sv[e] THEN {"history"} ELSE {},
     IF ~SameU(R.U0, prevU) THEN {"start"} ELSE {},
     IF ~MNearF(R.fc, fc, sc) THEN {"constant-load"} ELSE {},
     IF ~MNearF(R.f, d.F[R.step], sc) THEN {"load"} ELSE {},
     IF R.step \notin 1..T.nsteps \/ R.step < P.step THEN {"order"} ELSE {},
     IF R.Uflat # Flatten(R.U) \/ R.Ufull # R.U \/ ~VNear(R.Ured, Reduce(d, R.U), FTen(12)) THEN {"access"} ELSE {},
     IF R.rflat # Flatten(R.r) \/ R.rfull # R.r \/ ~VNear(R.rred, Reduce(d, R.r), FTen(12)) THEN {"access"} ELSE {},
     IF R.K # <<>> /\ ~kink /\ FLe(T.xtol, FTen(7)) /\ ~(Len(R.K) = Len(FL) /\ \A a \in 1..Len(FL) : \A b \in 1..Len(FL) :
           FNear(R.K[a][b], StiffnessBlock(d, B, FL[a][1], FL[b][1])[FL[a][2]][FL[b][2]], FMul(FTen(5), ksc)))
       THEN {"reported-stiffness"} ELSE {} }

LeftBehind ==
  LET R1 == T.res[Len(T.res)]
      some == Len(T.res) > 1
      one == \A e \in 1..NE : FNear(T.left.lam[e], IF some THEN R1.lam[e] ELSE FOne, FTen(11))
  IN /\ MNearF(T.left.U, R1.U, FOne)
     /\ MNearF(T.left.r, R1.r, FAdd(FMaxSeq(R1.N), FAdd(FOne, FMaxSeq([e \in 1..NE |-> FMul(d.el[e].E, d.el[e].A)]))))
     /\ \A e \in 1..NE : NearF(T.left.N[e], R1.N[e], FAdd(FAbs(R1.N[e]), FMul(d.el[e].E, d.el[e].A)))
     /\ one \/ (~some /\ \A e \in 1..NE : T.left.lam[e] = FZero)

\* the record: the undeformed state, then exactly the accepted increments in order
Record ==
  UNION {
    \* evaluating or building the model again changes no reported result
    IF ~T.kept THEN {"immutable"} ELSE {},
    IF Len(T.res) # Len(T.acc) + 1 THEN {"record-count"}
    ELSE IF \E m \in 1..Len(T.acc) : T.acc[m].step # T.res[m + 1].step
              \/ ~VNear(T.acc[m].V, Append(Reduce(d, T.res[m + 1].U), T.res[m + 1].lpf), FTen(12)) THEN {"record"} ELSE {},
    \* the model is left in the state of the last result
    IF ~LeftBehind THEN {"left-behind"} ELSE {},
    IF Len(T.ends) # T.nsteps THEN {"ends"}
    ELSE IF \E s \in 1..T.nsteps : ~FNear(T.ends[s], Final(s), FTen(12)) THEN {"ends"} ELSE {},
    IF T.want # <<>> /\ \E s \in 1..T.nsteps : Len(OfCase(T.res, s)) # T.want[s] THEN {"as-scripted"} ELSE {} }
History ==
  UNION {
    IF \E m \in 1..Len(T.ev) : ~T.ev[m].w /\ T.ev[m].a # T.ev[m].b THEN {"trial-state"} ELSE {},
    IF \E m \in 2..Len(T.ev) : T.ev[m].a # T.ev[m - 1].b THEN {"state-chain"} ELSE {},
    IF Len(T.ev) > 0 /\ \E e \in 1..NE : T.svs[T.ev[1].a][e] # Virgin THEN {"virgin"} ELSE {} }

Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == /\ k <= Len(T.res)
        /\ LET b == bad \cup (IF k = 1 THEN First \cup Record \cup History ELSE Increment)
           IN /\ bad' = b /\ k' = k + 1 /\ UNCHANGED tid
              /\ IF k = Len(T.res)
                 THEN IF b = {} THEN PrintT("VERDICT|" \o T.id \o "|0|ok")
                      ELSE \A c \in b : PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o c)
                 ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
