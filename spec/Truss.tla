------------------------------- MODULE Truss -------------------------------
(***************************************************************************)
(* Reference model of the truss: kinematics, element response, assembly of *)
(* internal forces and of the tangent stiffness.                           *)
(*                                                                         *)
(* A definition d has: X (coordinates per node), free (booleans per node   *)
(* and direction), el (sequence of [a, b, A, mat, E, K, Sy]), F (forces    *)
(* per load case, node and direction).  Nodes are numbered 1..n in the     *)
(* order of their labels, elements in the order of their definition.       *)
(***************************************************************************)
EXTENDS Material

Diff(u, v) == VSub(u, v)
Norm(v) == FSqrt(Dot(v, v))

\* response of element e at displacements U with committed history sv
ElementState(d, e, U, sv) ==
  LET el == d.el[e]
      dX == Diff(d.X[el.b], d.X[el.a])
      dx == VAdd(dX, Diff(U[el.b], U[el.a]))
      L == Norm(dX)
      l == Norm(dx)
      lam == FDiv(l, L)
      r == Respond(el, sv, FSub(lam, FOne))
  IN [L |-> L, l |-> l, lam |-> lam, dx |-> dx, s |-> r.s, N |-> FMul(r.s, el.A), d |-> r.d, sv |-> r.sv, kink |-> r.kink,
      q |-> FDiv(FMul(r.s, el.A), l)]

States(d, U, SV) == TLCEval([e \in 1..Len(d.el) |-> ElementState(d, e, U, SV[e])])

\* internal forces at all nodes
Internal(d, S) ==
  TLCEval([n \in 1..Len(d.X) |->
     FoldLeft(LAMBDA acc, e :
                IF d.el[e].b = n THEN VAdd(acc, VScale(S[e].q, S[e].dx))
                ELSE IF d.el[e].a = n THEN VSub(acc, VScale(S[e].q, S[e].dx)) ELSE acc,
              VZero(3), [e \in 1..Len(d.el) |-> e])])

\* magnitude of the forces around, for tolerances
ForceScale(S) == FAdd(FTen(3), FMaxSeq([e \in 1..Len(S) |-> S[e].N]))

\* free degrees of freedom in their order: pairs <<node, direction>>
FreeList(d) == SelectSeq([p \in 1..(3 * Len(d.X)) |-> <<((p - 1) \div 3) + 1, ((p - 1) % 3) + 1>>], LAMBDA t : d.free[t[1]][t[2]])
Reduce(d, M) == [k \in 1..Len(FreeList(d)) |-> M[FreeList(d)[k][1]][FreeList(d)[k][2]]]

\* 3x3 block of an element: material and geometric part
Block(el, S) ==
  TLCEval([i \in 1..3 |-> [j \in 1..3 |->
     LET nn == FDiv(FMul(S.dx[i], S.dx[j]), FMul(S.l, S.l))
         mat == FDiv(FMul(FMul(S.d, el.A), nn), S.L)
         geo == FMul(S.q, FSub(IF i = j THEN FOne ELSE FZero, nn))
     IN FAdd(mat, geo)]])

\* stiffness between node m (force) and node n (displacement): sum over the elements
StiffnessBlock(d, B, m, n) ==
  TLCEval([i \in 1..3 |-> [j \in 1..3 |->
     FSum([e \in 1..Len(d.el) |->
        LET el == d.el[e]
        IN IF m = n /\ (el.a = m \/ el.b = m) THEN B[e][i][j]
           ELSE IF m # n /\ {el.a, el.b} = {m, n} THEN FNeg(B[e][i][j]) ELSE FZero])]])
Blocks(d, S) == TLCEval([e \in 1..Len(d.el) |-> Block(d.el[e], S[e])])
=============================================================================
