--------------------------- MODULE MCPathFollow ---------------------------
(***************************************************************************)
(* State machine of one load case around the functional core PathFollow:   *)
(* the Newton solver is replaced by arbitrary outcomes (converged or not,  *)
(* any number of iterations, any movement that satisfies the control       *)
(* equation).  Checked exhaustively for a set of configurations.           *)
(* With GEN = TRUE every finished behaviour is printed as a script that    *)
(* the harness replays into the real pathfollow().                         *)
(***************************************************************************)
EXTENDS PathFollow, PFConfigs, Json, Randomization

CONSTANTS Configs,     \* set of indices into Mods
          Ratios,      \* movements relative to the limit, in quarters (signed integers)
          MaxAttempts, \* bound for generated behaviours (0: no bound)
          GEN,
          TELL         \* keep the last event (for MCAccount)

VARIABLES cid,      \* configuration
          phase,    \* "predict" / "attempt" / "done"
          st,       \* [fac, b, z, j] at the beginning of the attempt
          fresh,    \* first attempt of the increment
          i,        \* accepted increments
          why,      \* reason for the end
          spent,    \* attempts in this increment
          hist      \* script of the behaviour (GEN only)
vars == <<cid, phase, st, fresh, i, why, spent, hist>>
c == Mods[cid]

Q(q) == FRat(q, 4)
\* all ratio vectors with the controlled component at exactly its limit
AllMoves(j) == {v \in [1..c.n -> Ratios] : v[AbsI(j)] = 4 * SgnI(j)}
\* generated behaviours: some of the movements with a unique leading component
Leads(v) == {k \in 1..c.n : \A m \in 1..c.n : AbsI(v[k]) >= AbsI(v[m])}
Moves(j) == IF GEN THEN RandomSubset(4, {v \in AllMoves(j) : Cardinality(Leads(v)) = 1}) ELSE AllMoves(j)
Dx(v) == LET lim == Lim(c, st.fac) IN TLCEval([k \in 1..c.n |-> FMul(Q(v[k]), lim[k])])

Log(e) == IF GEN THEN Append(hist, e) ELSE IF TELL THEN <<e>> ELSE hist

BeginIncrement(s) == phase' = (IF Predicts(c) THEN "predict" ELSE "attempt")

Init == /\ cid \in Configs
        /\ st = [fac |-> FOne, b |-> 4, z |-> 0, j |-> InitialControl(c)]
        /\ phase = IF c.incs = 0 THEN "done" ELSE IF Predicts(c) THEN "predict" ELSE "attempt"
        /\ fresh = TRUE /\ i = 0 /\ why = IF c.incs = 0 THEN "incs" ELSE ""
        /\ spent = 0 /\ hist = <<>>

Predict == /\ phase = "predict"
           /\ \E v \in Moves(st.j) : \E j \in Leading(c, Lim(c, st.fac), Dx(v)) :
                /\ st' = [st EXCEPT !.j = j]
                /\ hist' = Log([e |-> "pre", v |-> v, ok |-> TRUE, n |-> 1, fac |-> st.fac, j |-> st.j, acc |-> FALSE, say |-> <<>>])
           /\ phase' = "attempt"
           /\ UNCHANGED <<cid, fresh, i, why, spent>>

Attempt ==
  /\ phase = "attempt"
  /\ MaxAttempts = 0 \/ Len(hist) < MaxAttempts
  /\ \E ok \in BOOLEAN : \E v \in Moves(st.j) :
     LET nf == Budget(c, fresh)
     IN \E n \in (IF ok THEN c.ns \cap 1..nf ELSE {nf}) :
     \E r \in AfterAttempt(c, st, ok, n, nf, Dx(v)) :
       /\ hist' = Log([e |-> "att", v |-> v, ok |-> ok, n |-> n, fac |-> st.fac, j |-> st.j, acc |-> r.out = "accept", say |-> r.say])
       /\ CASE r.out = "accept" ->
                /\ i' = i + 1 /\ spent' = 0 /\ fresh' = TRUE
                /\ st' = [fac |-> r.fac, b |-> r.b, z |-> 0, j |-> r.j]
                /\ \E exceeded \in (IF c.xlim.on /\ ~GEN THEN BOOLEAN ELSE {FALSE}) :
                     IF exceeded THEN phase' = "done" /\ why' = "xlimit"
                     ELSE IF i + 1 = c.incs THEN phase' = "done" /\ why' = "incs"
                     ELSE BeginIncrement(r) /\ why' = ""
            [] r.out = "again" ->
                /\ st' = [fac |-> r.fac, b |-> r.b, z |-> r.z, j |-> r.j]
                /\ fresh' = FALSE /\ spent' = spent + 1
                /\ UNCHANGED <<phase, i, why>>
            [] OTHER ->
                /\ phase' = "done" /\ why' = r.out /\ st' = st /\ spent' = spent + 1
                /\ UNCHANGED <<fresh, i>>
       /\ UNCHANGED cid

\* generated behaviours may be cut anywhere
Cut == /\ GEN /\ phase # "done" /\ MaxAttempts > 0 /\ Len(hist) >= MaxAttempts
       /\ phase' = "done" /\ why' = "cut"
       /\ UNCHANGED <<cid, st, fresh, i, spent, hist>>

Emit == IF phase' = "done" /\ GEN
        THEN PrintT("SCRIPT|" \o ToJson([c |-> cid, s |-> hist', why |-> why', inc |-> i'])) ELSE TRUE

Next == (Predict \/ Attempt \/ Cut) /\ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
\* Properties of the controller

TypeOK == /\ phase \in {"predict", "attempt", "done"}
          /\ st.z \in 0..c.cycl /\ st.b \in 0..(4 + c.incs)
          /\ AbsI(st.j) \in 1..c.n /\ i \in 0..c.incs

\* C06: recycles stay within the budget; reductions bound the number of attempts
RecyclesBounded == phase = "attempt" => st.z < c.cycl \/ c.cycl = 1
IncrementsBounded == i <= c.incs
\* C07: the common factor stays within its range
\* (one growth beyond the maximum is possible before it is cut back)
FacRange == /\ FLt(FZero, st.fac)
            /\ FLe(st.fac, FMax(FOne, FAdd(c.maxfac, FDivInt(FMulInt(c.maxfac, c.inc[1]), c.inc[2]))))
            /\ FLe(FMin(FOne, c.minfac), FAdd(FDivInt(FMulInt(st.fac, c.red[1]), c.red[2]), FTen(20)))
            /\ ~c.sc => st.fac = FOne
\* C19: a locked control component is never switched
LockedControl == c.jfixed => st.j = InitialControl(c)
\* C06: a run ends early only by failure or by exceeding the observed limit
EndReason == phase = "done" =>
   \/ why = "incs" /\ i = c.incs
   \/ why = "xlimit" /\ c.xlim.on /\ i >= 1
   \/ why \in {"err1", "err2"} /\ i < c.incs
   \/ why = "cut" /\ GEN
\* C08: a failed load case without recycles left or without alternatives
FailReason == (phase = "done" /\ why = "err2") => (c.sc => (FLe(st.fac, c.minfac) \/ c.cycl = 1))

\* C07 as an action property: how the factor may change
FacLaw == [][\/ st'.fac = st.fac
             \/ c.sc /\ FClose(FMulInt(st'.fac, c.red[1]), FMulInt(st.fac, c.red[2]), FTen(18), FTen(22)) /\ st'.b = 0 /\ st'.z >= 1
             \/ c.sc /\ i' = i + 1 /\ FLt(st.fac, st'.fac) /\ FLt(st.fac, c.maxfac) /\ st.b >= 4 /\ st.z = 0
             \/ c.sc /\ i' = i + 1 /\ FLe(c.maxfac, st.fac) /\ st'.fac = c.maxfac]_vars
\* C08: only accepted increments advance the counter, one at a time
Advance == [][i' = i \/ i' = i + 1]_vars
\* C20: what is announced is what happens (checked with TELL)
Announced ==
  (TELL /\ hist # <<>>) =>
  LET e == hist[1]
      said == {e.say[q] : q \in 1..Len(e.say)}
      goes == e.e = "att" /\ (e.acc \/ phase # "done")
  IN /\ said \subseteq {"limit", "wait", "reduce", "hold", "grow"}
     /\ goes => (("reduce" \in said) <=> (FLt(st.fac, e.fac) /\ ~e.acc))
     /\ "grow" \in said => e.ok /\ FLe(e.fac, st.fac)
     /\ goes /\ ~e.acc => FLe(st.fac, e.fac)
     /\ ("limit" \in said) => ("reduce" \in said /\ "wait" \notin said)
     /\ "hold" \in said => e.ok /\ st.fac = e.fac
     /\ (said \cap {"reduce", "wait", "limit"} # {}) => ~e.ok
     /\ (e.e = "pre" \/ ~c.sc) => said = {}
\* C06, C07, C08: the controller is the abstract one of Control.tla, of which Apalache proves
\* for all parameters that every load case ends and how many attempts are spent
RECURSIVE Level(_, _)
Level(f, k) == IF k > 0 /\ FLt(c.minfac, f) THEN 1 + Level(FDivInt(FMulInt(f, c.red[2]), c.red[1]), k - 1) ELSE 0
Abstract == INSTANCE Control WITH incs <- c.incs, cycl <- c.cycl, sc <- c.sc, top <- 1000, z <- st.z,
                                  lv <- Level(st.fac, 60), lv0 <- 0, spent <- 0
Refines == [][Abstract!CoreNext]_(Abstract!core)
\* C06: every load case ends
Terminates == <>(phase = "done")
=============================================================================
