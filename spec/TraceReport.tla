---------------------------- MODULE TraceReport ----------------------------
(***************************************************************************)
(* Trace checker: what the log of a run reports about the model, the       *)
(* settings, the load cases and the end of the run.                        *)
(* Trace: level, d (definition, see Truss), par (the settings as they are: *)
(*   name -> number), sc, res (records [step, U, lpf]), ends; the log:     *)
(*   summary [dims (dimension, nodes, elements, dofs, free, locked), free, *)
(*   locked], table (sequence of [name, v]), steps (numbers), closed       *)
(*   (numbers), consts (per later load case [c, v]: constant loads and     *)
(*   initial values, numbers in their order), writes per load case         *)
(*   [i, n, v], created (numbers of load cases)                            *)
(***************************************************************************)
EXTENDS Truss, Job, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, out
T == Traces[tid]
d == T.d
NN == Len(d.X)
Free == SelectSeq([p \in 1..(3 * NN) |-> p - 1], LAMBDA p : d.free[(p \div 3) + 1][(p % 3) + 1])
Locked == SelectSeq([p \in 1..(3 * NN) |-> p - 1], LAMBDA p : ~d.free[(p \div 3) + 1][(p % 3) + 1])
Flat(A) == FoldLeft(LAMBDA acc, v : acc \o v, <<>>, A)
Const(s) == Flat(FoldLeft(LAMBDA acc, q : [n \in 1..NN |-> VAdd(acc[n], VScale(EndOf(T.res, q, FZero), d.F[q][n]))], [n \in 1..NN |-> VZero(3)], [q \in 1..(s - 1) |-> q]))
Before(s) == LET m == SelectSeq(T.res, LAMBDA r : r.step < s \/ r.first) IN m[Len(m)]
Initial(s) == Append(Reduce(d, Before(s).U), FZero)
\* arrays are printed with eight decimals, or eight digits of each entry when the entries are large or far apart
Array(p, v) == Len(p) = Len(v) /\ \A i \in 1..Len(p) : FNear(p[i], v[i], FMul(FMul(FNum(6), FTen(9)), FAdd(FOne, FAbs(v[i]))))
Digits4(p, v) == FNear(p, v, FAdd(FMul(FMul(FNum(6), FTen(4)), FAbs(v)), FTen(20)))

Names == <<"incs", "cycl", "nfev", "du", "dlpf", "j0", "j_fixed", "dxtol", "xtol", "ftol">> \o (IF T.sc THEN <<"stepcontrol", "minfac", "maxfac", "reduce", "increase">> ELSE <<>>)
\* values [t (type), v (numbers)]; the reduction is given by the factor itself
Told(name, p, v) == IF name = "reduce" THEN p.t = "one" /\ FNear(FMul(p.v[1], v.v[1]), FOne, FTen(12)) ELSE p = v
S == 1..T.nsteps
Written(s) == LET m == OfCase(T.res, s) IN [i \in 1..Len(m) |-> [i |-> i, n |-> Len(m), v |-> m[i].lpf]]
Verdict ==
  LET L == T.log IN
  IF T.level < 2 /\ (L.summary # <<>> \/ L.table # <<>> \/ L.created # <<>> \/ \E s \in 1..Len(L.writes) : L.writes[s] # <<>>) THEN "report-level"
  ELSE IF T.level < 1 /\ (L.steps # <<>> \/ L.closed # <<>>) THEN "report-level"
  ELSE IF T.level >= 1 /\ (L.steps # [s \in S |-> s] \/ L.closed # [s \in S |-> s]) THEN "report-steps"
  ELSE IF T.level >= 2 /\ (Len(L.summary) # 1 \/ L.summary[1].dims # <<3, NN, Len(d.el), 3 * NN, Len(Free), Len(Locked)>>) THEN "report-size"
  ELSE IF T.level >= 2 /\ (L.summary[1].free # Free \/ L.summary[1].locked # Locked) THEN "report-dofs"
  ELSE IF T.level >= 2 /\ [i \in 1..Len(L.table) |-> L.table[i].name] # Names THEN "report-parameters"
  ELSE IF T.level >= 2 /\ \E i \in 1..Len(Names) : ~Told(Names[i], L.table[i].v, T.par[Names[i]]) THEN "report-parameter-value"
  ELSE IF Len(L.consts) # T.nsteps - 1 THEN "report-constant-loads"
  ELSE IF \E s \in 2..T.nsteps : ~Array(L.consts[s - 1].c, Const(s)) THEN "report-constant-loads"
  ELSE IF \E s \in 2..T.nsteps : ~Array(L.consts[s - 1].v, Initial(s)) THEN "report-initial-values"
  ELSE IF T.level >= 2 /\ L.created # [s \in S |-> s] THEN "report-created"
  ELSE IF T.level >= 2 /\ \E s \in S : LET w == Written(s) IN Len(L.writes[s]) # Len(w) \/ \E i \in 1..Len(w) : L.writes[s][i].i # i \/ L.writes[s][i].n # w[i].n \/ ~Digits4(L.writes[s][i].v, w[i].v) THEN "report-written"
  ELSE "ok"
Init == tid \in 1..Len(Traces) /\ out = ""
Next == out = "" /\ out' = Verdict /\ PrintT("VERDICT|" \o T.id \o "|0|" \o out') /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, out>>
=============================================================================
