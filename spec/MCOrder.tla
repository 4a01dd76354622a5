------------------------------ MODULE MCOrder ------------------------------
(***************************************************************************)
(* Defining one model in any order and with any increasing labels: every   *)
(* order of the same additions (with detours: something else is added and  *)
(* deleted again, or added late, deleted and added again) ends in the same *)
(* definition, and relabelling it by an increasing map commutes with the   *)
(* layout of nodes and degrees of freedom.  Also generates such orders.    *)
(***************************************************************************)
EXTENDS Registry, Json, Randomization
CONSTANTS Count, \* number of entities: positions 1..Count
          Detours, GEN
VARIABLES d, left, seq, detours, done
vars == <<d, left, seq, detours, done>>
\* entity number p of a small model: nodes, elements, supports, forces in turn
Kind(p) == <<"addN", "addN", "addE", "addB", "addN", "addF", "addE">>[((p - 1) % 7) + 1]
Drop(p) == <<"delN", "delN", "delE", "delB", "delN", "delF", "delE">>[((p - 1) % 7) + 1]
Label(p) == p + 2
Value(p) == IF Kind(p) = "addE" THEN [conn |-> <<p, p + 1>>, et |-> 1, mt |-> 1, mp |-> <<p>>, gp |-> <<p>>] ELSE IF Kind(p) = "addB" THEN <<p % 2, 1, 0>> ELSE <<p, p, p>>
Add(p) == [k |-> Kind(p), a |-> <<[l |-> Label(p), v |-> Value(p)]>>]
Del1(p) == [k |-> Drop(p), l |-> Label(p)]
Pick(X) == IF GEN /\ X # {} THEN RandomSubset(1, X) ELSE X
Init == d = Blank /\ left = 1..Count /\ seq = <<>> /\ detours = 0 /\ done = FALSE
Next ==
  \/ \E p \in Pick(left) : d' = Apply(d, Add(p)) /\ left' = left \ {p} /\ seq' = Append(seq, p) /\ UNCHANGED <<detours, done>>
  \/ detours < Detours /\ left # {} /\ \E p \in Pick((1..Count) \ left) : d' = Apply(d, Del1(p)) /\ left' = left \cup {p} /\ seq' = Append(seq, -p) /\ detours' = detours + 1 /\ UNCHANGED done
  \/ GEN /\ left = {} /\ ~done /\ done' = TRUE /\ PrintT("ORD|" \o ToJson(seq)) /\ UNCHANGED <<d, left, seq, detours>>
Spec == Init /\ [][Next]_vars
View == <<d, left, detours>>

\* the definition is a function of what is in it, not of the history
Ref == [nodes |-> [l \in {Label(p) : p \in {q \in (1..Count) \ left : Kind(q) = "addN"}} |-> Value(l - 2)],
        elems |-> [l \in {Label(p) : p \in {q \in (1..Count) \ left : Kind(q) = "addE"}} |-> Value(l - 2)],
        sups |-> [l \in {Label(p) : p \in {q \in (1..Count) \ left : Kind(q) = "addB"}} |-> Value(l - 2)],
        frcs |-> [l \in {Label(p) : p \in {q \in (1..Count) \ left : Kind(q) = "addF"}} |-> Value(l - 2)]]
Confluent == \A l \in DOMAIN Ref : \A x \in DOMAIN Ref[l] : x \in DOMAIN d[l] /\ d[l][x] = Ref[l][x] /\ DOMAIN d[l] = DOMAIN Ref[l]
\* an increasing relabelling commutes with the layout
Grow == {[l \in 1..(Count + 2) |-> 2 * l], [l \in 1..(Count + 2) |-> l * l + 5], [l \in 1..(Count + 2) |-> l + 40]}
Rename(f, g) == [y \in {g[x] : x \in DOMAIN f} |-> f[CHOOSE x \in DOMAIN f : g[x] = y]]
Layout(e) == Complete(e, <<1, 1, 1>>, <<0, 0, 0>>)
LabelFree == \A g \in Grow :
   LET full == Layout([d EXCEPT !.sups = [x \in DOMAIN @ \cap DOMAIN d.nodes |-> @[x]]])
       ren == [full EXCEPT !.nodes = Rename(@, g), !.sups = Rename(@, g), !.frcs = Rename(@, g)]
   IN /\ Ascending(DOMAIN ren.nodes) = [i \in 1..Cardinality(DOMAIN full.nodes) |-> g[Ascending(DOMAIN full.nodes)[i]]]
      /\ \A w \in {0, 1} : Dofs(ren, w) = Dofs(full, w)
=============================================================================
