----------------------------- MODULE MCRegistry -----------------------------
(***************************************************************************)
(* Histories of definition operations on two models.  Next to the abstract *)
(* maps, the tables (parallel rows, one per label) of the implementation   *)
(* are kept; every history is a refinement step of the maps.  Histories    *)
(* are printed and replayed into the real handlers.                        *)
(***************************************************************************)
EXTENDS Registry, Json, Randomization
CONSTANTS Labels, Values, Models, Depth, GEN, Kinds
VARIABLES defs, tabs, ops, kind, built
vars == <<defs, tabs, ops, kind, built>>

\* --- tables, as the handlers keep them
NoTab == [labels |-> <<>>, conns |-> <<>>, mts |-> <<>>, mps |-> <<>>, gps |-> <<>>, ets |-> <<>>]
Without(s, ls, l) == LET keep == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : ls[i] # l) IN [i \in 1..Len(keep) |-> s[keep[i]]]
Upd(s, ls, w, G(_, _)) == [i \in 1..Len(s) |-> IF \E q \in 1..Len(w) : w[q] = ls[i]
                                               THEN G(s[i], CHOOSE q \in 1..Len(w) : w[q] = ls[i] /\ \A p \in (q + 1)..Len(w) : w[p] # ls[i]) ELSE s[i]]
Pad(mp, n) == mp \o [i \in 1..(n - Len(mp)) |-> 0]
Width(t) == IF t.mps = <<>> THEN 0 ELSE Len(t.mps[1])
Wider(t, n) == IF Width(t) < n THEN [t EXCEPT !.mps = [i \in 1..Len(@) |-> Pad(@[i], n)]] ELSE t
AddRow(t0, p) == LET n == IF Width(t0) > Len(p.v.mp) THEN Width(t0) ELSE Len(p.v.mp)
                     t == Wider(t0, n)
                 IN [labels |-> Append(t.labels, p.l), conns |-> Append(t.conns, p.v.conn), mts |-> Append(t.mts, p.v.mt),
                     mps |-> Append(t.mps, Pad(p.v.mp, n)), gps |-> Append(t.gps, p.v.gp), ets |-> Append(t.ets, p.v.et)]
Tab(t, o) ==
  CASE o.k = "addE" -> FoldLeft(AddRow, t, o.a)
    [] o.k = "delE" -> [labels |-> Without(t.labels, t.labels, o.l), conns |-> Without(t.conns, t.labels, o.l), mts |-> Without(t.mts, t.labels, o.l),
                        mps |-> Without(t.mps, t.labels, o.l), gps |-> Without(t.gps, t.labels, o.l), ets |-> Without(t.ets, t.labels, o.l)]
    [] o.k = "mat"  -> LET w == Wider(t, Len(o.v))
                       IN [w EXCEPT !.mps = Upd(@, t.labels, o.ls, LAMBDA x, i : Pad(o.v, Width(w))),
                                    !.mts = Upd(@, t.labels, o.ls, LAMBDA x, i : IF o.t = 0 THEN x ELSE o.t)]
    [] o.k = "geo"  -> [t EXCEPT !.gps = Upd(@, t.labels, o.ls, LAMBDA x, i : o.v)]
    [] o.k = "geos" -> [t EXCEPT !.gps = Upd(@, t.labels, o.ls, LAMBDA x, i : o.vs[i])]
    [] o.k = "mt"   -> [t EXCEPT !.mts = Upd(@, t.labels, o.ls, LAMBDA x, i : o.t)]
    [] o.k = "et"   -> [t EXCEPT !.ets = Upd(@, t.labels, o.ls, LAMBDA x, i : o.t)]
    [] OTHER -> t

Init == defs = [m \in Models |-> Blank] /\ tabs = [m \in Models |-> NoTab] /\ ops = <<>> /\ kind = "" /\ built = [m \in Models |-> FALSE]

\* generating: one choice at random instead of all
Pick(S) == IF GEN /\ S # {} THEN RandomSubset(1, S) ELSE S
NN(m) == DOMAIN defs[m].nodes
EE(m) == DOMAIN defs[m].elems
Do(m, o) == /\ defs' = [defs EXCEPT ![m] = Apply(@, o)]
            /\ tabs' = IF GEN THEN tabs ELSE [tabs EXCEPT ![m] = Tab(@, o)]
            /\ ops' = Append(ops, [m |-> m] @@ o) /\ kind' = ""
            /\ UNCHANGED built
One(k, l, v) == [k |-> k, a |-> <<[l |-> l, v |-> v]>>]
Two(k, l1, v1, l2, v2) == [k |-> k, a |-> <<[l |-> l1, v |-> v1], [l |-> l2, v |-> v2]>>]
Mps == {<<v>> : v \in Values} \cup {<<v, v, v>> : v \in Values}
Elem(c, mp) == [conn |-> c, et |-> 1, mt |-> IF Len(mp) = 3 THEN 2 ELSE 1, mp |-> mp, gp |-> c]
Chosen(S) == {<<l>> : l \in S} \cup {<<a, b>> : a \in S, b \in S}
Build(m) ==
  /\ NN(m) # {} /\ EE(m) # {} /\ DOMAIN defs[m].frcs # {}
  /\ defs' = [defs EXCEPT ![m] = Complete(@, "free", "unloaded")] /\ built' = [built EXCEPT ![m] = Buildable(defs[m])]
  /\ ops' = Append(ops, [m |-> m, k |-> "build"]) /\ kind' = "" /\ UNCHANGED tabs
Step(m) ==
  \/ kind = "addN" /\ \E l \in Pick(Labels \ NN(m)), v \in Pick(Values) : Do(m, One("addN", l, v))
  \/ kind = "addNs" /\ \E l \in Pick(Labels \ NN(m)) : \E q \in Pick(Labels \ (NN(m) \cup {l})) : \E v \in Pick(Values) : Do(m, Two("addN", l, v, q, v))
  \/ kind = "delN" /\ NN(m) # {} /\ \E l \in Pick(NN(m)) : Do(m, [k |-> "delN", l |-> l])
  \/ kind = "delNx" /\ NN(m) # {} /\ \E l \in Pick(Labels \ NN(m)) : Do(m, [k |-> "delN", l |-> l])
  \/ kind = "addE" /\ \E l \in Pick(Labels \ EE(m)), v \in Pick(Values), mp \in Pick(Mps) : Do(m, One("addE", l, Elem(v, mp)))
  \/ kind = "addEs" /\ \E l \in Pick(Labels \ EE(m)) : \E q \in Pick(Labels \ (EE(m) \cup {l})) : \E v \in Pick(Values), mp \in Pick(Mps), mq \in Pick(Mps) :
        Do(m, Two("addE", l, Elem(v, mp), q, Elem(v, mq)))
  \/ kind = "delE" /\ \E l \in Pick(EE(m)) : Do(m, [k |-> "delE", l |-> l])
  \/ kind = "mat" /\ EE(m) # {} /\ \E ls \in Pick(Chosen(EE(m))), v \in Pick(Mps), t \in Pick(0..2) : Do(m, [k |-> "mat", ls |-> ls, v |-> v, t |-> t])
  \/ kind = "geo" /\ EE(m) # {} /\ \E ls \in Pick(Chosen(EE(m))), v \in Pick(Values) : Do(m, [k |-> "geo", ls |-> ls, v |-> v])
  \/ kind = "geos" /\ EE(m) # {} /\ \E ls \in Pick(Chosen(EE(m))), v \in Pick(Values), w \in Pick(Values) : Do(m, [k |-> "geos", ls |-> ls, vs |-> SubSeq(<<v, w>>, 1, Len(ls))])
  \/ kind = "mt" /\ EE(m) # {} /\ \E ls \in Pick(Chosen(EE(m))), t \in Pick(1..2) : Do(m, [k |-> "mt", ls |-> ls, t |-> t])
  \/ kind = "et" /\ EE(m) # {} /\ \E ls \in Pick(Chosen(EE(m))), t \in Pick(1..2) : Do(m, [k |-> "et", ls |-> ls, t |-> t])
  \/ kind = "addB" /\ \E l \in Pick(Labels \ DOMAIN defs[m].sups), v \in Pick(Values) : Do(m, One("addB", l, v))
  \/ kind = "addBs" /\ \E l \in Pick(Labels \ DOMAIN defs[m].sups) : \E q \in Pick(Labels \ (DOMAIN defs[m].sups \cup {l})) : \E v \in Pick(Values), w \in Pick(Values) : Do(m, Two("addB", l, v, q, w))
  \/ kind = "delB" /\ \E l \in Pick(DOMAIN defs[m].sups) : Do(m, [k |-> "delB", l |-> l])
  \/ kind = "addF" /\ \E l \in Pick(Labels \ DOMAIN defs[m].frcs), v \in Pick(Values) : Do(m, One("addF", l, v))
  \/ kind = "addFs" /\ \E l \in Pick(Labels \ DOMAIN defs[m].frcs) : \E q \in Pick(Labels \ (DOMAIN defs[m].frcs \cup {l})) : \E v \in Pick(Values), w \in Pick(Values) : Do(m, Two("addF", l, v, q, w))
  \/ kind = "addBn" /\ \E l \in Pick(NN(m) \ DOMAIN defs[m].sups), v \in Pick(Values) : Do(m, One("addB", l, v))
  \/ kind = "addFn" /\ \E l \in Pick(NN(m) \ DOMAIN defs[m].frcs), v \in Pick(Values) : Do(m, One("addF", l, v))
  \/ kind = "delNn" /\ \E l \in Pick(NN(m) \ (DOMAIN defs[m].frcs \cup DOMAIN defs[m].sups)) : Do(m, [k |-> "delN", l |-> l])
  \/ kind = "delBx" /\ \E l \in Pick(DOMAIN defs[m].sups \ NN(m)) : Do(m, [k |-> "delB", l |-> l])
  \/ kind = "delFx" /\ \E l \in Pick(DOMAIN defs[m].frcs \ NN(m)) : Do(m, [k |-> "delF", l |-> l])
  \/ kind \in {"build1", "build2"} /\ Build(m)
  \/ kind = "delF" /\ \E l \in Pick(DOMAIN defs[m].frcs) : Do(m, [k |-> "delF", l |-> l])
  \/ kind = "build" /\ Build(m)

Emit == /\ GEN /\ Len(ops) = Depth /\ kind # "done" /\ kind' = "done"
        /\ PrintT("REG|" \o ToJson(ops)) /\ UNCHANGED <<defs, tabs, ops, built>>
Next == \/ Emit
        \/ /\ Len(ops) < Depth
           /\ \/ kind = "" /\ \E k \in Kinds : kind' = k /\ UNCHANGED <<defs, tabs, ops, built>>
              \/ kind # "" /\ \E m \in Models : Step(m)
              \/ kind # "" /\ kind' = "" /\ (~ENABLED (\E m \in Models : Step(m))) /\ UNCHANGED <<defs, tabs, ops, built>>
Spec == Init /\ [][Next]_vars

View == <<defs, tabs, kind, built, Len(ops), IF ops = <<>> THEN <<>> ELSE ops[Len(ops)]>>

\* the tables always read like the maps
RowOf(t, l) == CHOOSE i \in 1..Len(t.labels) : t.labels[i] = l
Refines == \A m \in Models :
  LET t == tabs[m] d == defs[m].elems
  IN /\ ToSet(t.labels) = DOMAIN d /\ Len(t.labels) = Cardinality(DOMAIN d)
     /\ \A f \in {"conns", "mts", "mps", "gps", "ets"} : Len(t[f]) = Len(t.labels)
     /\ \A l \in DOMAIN d : LET i == RowOf(t, l)
          IN /\ t.conns[i] = d[l].conn /\ t.mts[i] = d[l].mt /\ t.gps[i] = d[l].gp /\ t.ets[i] = d[l].et
             /\ t.mps[i] = Pad(d[l].mp, Width(t))
\* only the model operated on changes
OthersUntouched == [][Len(ops') > Len(ops) => \A m \in Models : m # ops'[Len(ops')].m => defs'[m] = defs[m]]_vars
\* after building everything is defined for exactly the nodes, or the model was refused
Built == \A m \in Models : (Len(ops) > 0 /\ ops[Len(ops)] = [m |-> m, k |-> "build"])
           => /\ NN(m) \subseteq DOMAIN defs[m].sups /\ NN(m) \subseteq DOMAIN defs[m].frcs
              /\ built[m] => DOMAIN defs[m].sups = NN(m) /\ DOMAIN defs[m].frcs = NN(m)
=============================================================================
