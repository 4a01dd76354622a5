--------------------------- MODULE TraceMaterial ---------------------------
(* Trace checker for calls of the material functions.                      *)
(* Trace: m (material), ev: sequence of [e, sv0, s, d, sv1]                *)
EXTENDS Material, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, sv, out
vars == <<tid, k, sv, out>>
T == Traces[tid]
E == T.ev[k]
Stop(c) == PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o c) /\ out' = c /\ UNCHANGED <<tid, k, sv>>
scale == FAdd(FOne, FAdd(FAbs(T.m.E), FMul(FAbs(T.m.E), FAbs(E.e))))
NearS(a, b) == FNear(a, b, FMul(FTen(11), scale))
Init == tid \in 1..Len(Traces) /\ k = 1 /\ sv = Virgin /\ out = ""
Step == LET r == Respond(T.m, E.sv0, E.e)
            near == T.m.mat = 2 /\ NearS(r.kink, FZero)
        IN IF k > 1 /\ E.sv0 # sv THEN Stop("chain")
           ELSE IF ~NearS(E.s, r.s) THEN Stop("stress")
           ELSE IF T.m.mat = 2 /\ ~NearS(E.sv1[1], r.sv[1]) THEN Stop("yield")
           ELSE IF T.m.mat = 2 /\ ~FNear(E.sv1[2], r.sv[2], FMul(FTen(11), FAdd(FOne, FAbs(E.e)))) THEN Stop("plastic-strain")
           ELSE IF ~NearS(E.d, r.d) /\ ~(near /\ (NearS(E.d, T.m.E) \/ NearS(E.d, FDiv(FMul(T.m.E, T.m.K), FAdd(T.m.E, T.m.K))))) THEN Stop("slope")
           ELSE k' = k + 1 /\ sv' = E.sv1 /\ UNCHANGED <<tid, out>>
Next == out = "" /\ IF k > Len(T.ev) THEN Stop("ok") ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
