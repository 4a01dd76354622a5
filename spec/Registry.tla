------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The definition of a model as maps from labels to values, and what the   *)
(* operations of its handlers do to it.  Zero is the number zero of the    *)
(* values' representation (missing trailing material parameters).          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Blank == [nodes |-> <<>>, elems |-> <<>>, sups |-> <<>>, frcs |-> <<>>]
Put(f, l, v) == (l :> v) @@ f
Del(f, l) == [x \in DOMAIN f \ {l} |-> f[x]]
\* change the rows of some labels
Rows(f, ls, G(_, _)) == [x \in DOMAIN f |-> IF \E i \in 1..Len(ls) : ls[i] = x
                                           THEN G(f[x], CHOOSE i \in 1..Len(ls) : ls[i] = x /\ \A q \in (i + 1)..Len(ls) : ls[q] # x) ELSE f[x]]

\* an operation o of the kinds below on the definition d
Apply(d, o) ==
  CASE o.k = "addN" -> [d EXCEPT !.nodes = FoldLeft(LAMBDA f, p : Put(f, p.l, p.v), d.nodes, o.a)]
    [] o.k = "delN" -> [d EXCEPT !.nodes = Del(d.nodes, o.l)]
    [] o.k = "addE" -> [d EXCEPT !.elems = FoldLeft(LAMBDA f, p : Put(f, p.l, p.v), d.elems, o.a)]
    [] o.k = "delE" -> [d EXCEPT !.elems = Del(d.elems, o.l)]
    [] o.k = "mat"  -> [d EXCEPT !.elems = Rows(d.elems, o.ls, LAMBDA e, i : [e EXCEPT !.mp = o.v, !.mt = IF o.t = 0 THEN e.mt ELSE o.t])]
    [] o.k = "geo"  -> [d EXCEPT !.elems = Rows(d.elems, o.ls, LAMBDA e, i : [e EXCEPT !.gp = o.v])]
    [] o.k = "geos" -> [d EXCEPT !.elems = Rows(d.elems, o.ls, LAMBDA e, i : [e EXCEPT !.gp = o.vs[i]])]
    [] o.k = "mt"   -> [d EXCEPT !.elems = Rows(d.elems, o.ls, LAMBDA e, i : [e EXCEPT !.mt = o.t])]
    [] o.k = "et"   -> [d EXCEPT !.elems = Rows(d.elems, o.ls, LAMBDA e, i : [e EXCEPT !.et = o.t])]
    [] o.k = "addB" -> [d EXCEPT !.sups = FoldLeft(LAMBDA f, p : Put(f, p.l, p.v), d.sups, o.a)]
    [] o.k = "delB" -> [d EXCEPT !.sups = Del(d.sups, o.l)]
    [] o.k = "addF" -> [d EXCEPT !.frcs = FoldLeft(LAMBDA f, p : Put(f, p.l, p.v), d.frcs, o.a)]
    [] o.k = "delF" -> [d EXCEPT !.frcs = Del(d.frcs, o.l)]

\* building: nodes without support are free, nodes without force are unloaded
Complete(d, free, unloaded) ==
  [d EXCEPT !.sups = @ @@ [l \in DOMAIN d.nodes \ DOMAIN d.sups |-> free],
            !.frcs = @ @@ [l \in DOMAIN d.nodes \ DOMAIN d.frcs |-> unloaded]]
Buildable(d) == DOMAIN d.sups \subseteq DOMAIN d.nodes /\ DOMAIN d.frcs \subseteq DOMAIN d.nodes
\* layout: nodes by ascending label, degrees of freedom node by node
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Dofs(d, want) ==
  LET nl == Ascending(DOMAIN d.nodes)
  IN SelectSeq([p \in 1..(3 * Len(nl)) |-> p - 1], LAMBDA q : d.sups[nl[(q \div 3) + 1]][(q % 3) + 1] = want)
=============================================================================
