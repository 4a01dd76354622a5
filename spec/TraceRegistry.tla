--------------------------- MODULE TraceRegistry ---------------------------
(***************************************************************************)
(* Trace checker: operations on the definitions of several real models and *)
(* what all models report afterwards.                                      *)
(* Trace: n (number of models), zeros (an unloaded force), ev: sequence of *)
(*   [o (operation with concrete values), m (model), kept (arguments as    *)
(*    given by the caller are unchanged), refused, obs (per model)]        *)
(* obs: nodes, sups, frcs: [labels, vals]; elems: [labels, conns, ets,     *)
(*      mts, mps, gps, got (the same through the access methods)];         *)
(*      after building also dof1, dof0, shape                              *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, defs, out
vars == <<tid, k, defs, out>>
T == Traces[tid]
E == T.ev[k]
M == 1..T.n
Free == <<1, 1, 1>>
Stop(c) == PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o c) /\ out' = c /\ UNCHANGED <<tid, k, defs>>
Init == tid \in 1..Len(Traces) /\ k = 1 /\ defs = [m \in 1..Traces[tid].n |-> Blank] /\ out = ""

Pos(ls, l) == CHOOSE i \in 1..Len(ls) : ls[i] = l
\* a table of labels and rows reads like the map f
SameMap(ls, rows, f) == /\ Len(ls) = Cardinality(DOMAIN f) /\ ToSet(ls) = DOMAIN f /\ Len(rows) = Len(ls)
                        /\ \A l \in DOMAIN f : rows[Pos(ls, l)] = f[l]
\* missing trailing parameters read as zero (<<>> is the number zero)
SamePad(row, mp) == Len(row) >= Len(mp) /\ \A i \in 1..Len(row) : row[i] = IF i <= Len(mp) THEN mp[i] ELSE <<>>
Col(f, name) == [l \in DOMAIN f |-> f[l][name]]
Broken(ob, d) ==
  IF ~SameMap(ob.nodes.labels, ob.nodes.vals, d.nodes) THEN "nodes"
  ELSE IF ~SameMap(ob.sups.labels, ob.sups.vals, d.sups) THEN "supports"
  ELSE IF ~SameMap(ob.frcs.labels, ob.frcs.vals, d.frcs) THEN "forces"
  ELSE LET e == ob.elems ls == e.labels
       IN IF ~SameMap(ls, e.conns, Col(d.elems, "conn")) THEN "connectivity"
          ELSE IF ~SameMap(ls, e.ets, Col(d.elems, "et")) \/ ~SameMap(ls, e.mts, Col(d.elems, "mt")) THEN "types"
          ELSE IF ~SameMap(ls, e.gps, Col(d.elems, "gp")) THEN "geometry"
          ELSE IF Len(e.mps) # Len(ls) \/ \E i \in 1..Len(ls) : ~SamePad(e.mps[i], d.elems[ls[i]].mp) THEN "material"
          ELSE IF \E i \in 1..Len(ls) : LET g == e.got[i] x == d.elems[ls[i]]
                                        IN g.conn # x.conn \/ g.ends # x.conn \/ g.mt # x.mt \/ g.et # x.et \/ g.gp # x.gp \/ ~SamePad(g.mp, x.mp) THEN "access"
          ELSE ""
First(names) == IF \E i \in 1..Len(names) : names[i] # "" THEN names[CHOOSE i \in 1..Len(names) : names[i] # "" /\ \A q \in 1..(i - 1) : names[q] = ""] ELSE ""
All(ds) == First([m \in M |-> LET b == Broken(E.obs[m], ds[m]) IN IF b = "" THEN "" ELSE (IF m = E.m THEN b ELSE "other-model-" \o b)])

Go(ds) == k' = k + 1 /\ defs' = ds /\ UNCHANGED <<tid, out>>
Operate == LET ds == [defs EXCEPT ![E.m] = Apply(@, E.o)]
               b == All(ds)
           IN IF E.refused THEN Stop("operation-refused") ELSE IF ~E.kept THEN Stop("arguments") ELSE IF b # "" THEN Stop(b) ELSE Go(ds)
Build ==
  LET full == [defs EXCEPT ![E.m] = Complete(@, Free, T.zeros)]
      ok == Buildable(defs[E.m])
      ob == E.obs[E.m]
      d == full[E.m]
      asc == Ascending(DOMAIN d.nodes)
  IN IF E.refused
     THEN IF ok THEN Stop("build-refused")
          \* a refused model may already be completed
          ELSE IF All(defs) = "" THEN Go(defs) ELSE IF All(full) = "" THEN Go(full) ELSE Stop("refused-" \o All(defs))
     ELSE IF ~ok THEN Stop("build-accepted")
     ELSE IF All(full) # "" THEN Stop("build-" \o All(full))
     ELSE IF ob.nodes.labels # asc \/ ob.sups.labels # asc \/ ob.frcs.labels # asc THEN Stop("build-layout")
     ELSE IF ob.dof1 # Dofs(d, 1) \/ ob.dof0 # Dofs(d, 0) THEN Stop("build-dofs")
     ELSE IF ob.shape # <<Len(asc), Len(ob.elems.labels)>> THEN Stop("build-size")
     ELSE Go(full)
Next == out = "" /\ IF k > Len(T.ev) THEN Stop("ok") ELSE IF E.o.k = "build" THEN Build ELSE Operate
Spec == Init /\ [][Next]_vars
=============================================================================
