----------------------------- MODULE PFConfigs -----------------------------
(* Configurations for the exhaustive model checking and for the generator. *)
(* All numbers are dyadic, so that the real code computes exactly.         *)
EXTENDS Fix, TLC
Lims(n, du, dl) == [k \in 1..n |-> IF k < n THEN FRat(1, du) ELSE FRat(1, dl)]
NoLim == [on |-> FALSE, comp |-> 0, val |-> FZero]
Base == [id |-> 0, n |-> 3, lim0 |-> Lims(3, 64, 32), j0 |-> 0, jfixed |-> FALSE, jpre |-> TRUE, incs |-> 3, nfev |-> 5,
         cycl |-> 3, sc |-> TRUE, minfac |-> FRat(1, 16), maxfac |-> FNum(2), red |-> <<4, 1>>, inc |-> <<1, 2>>,
         dxtol |-> FRat(5, 4), xlim |-> NoLim, ftol |-> FTen(8), xtol |-> FTen(8), band |-> FZero, ns |-> {2, 4}]
Mods == <<
  Base,
  [Base EXCEPT !.jpre = FALSE, !.nfev = 4],
  [Base EXCEPT !.sc = FALSE],
  [Base EXCEPT !.jfixed = TRUE, !.nfev = 4, !.j0 = 3],
  [Base EXCEPT !.jfixed = TRUE, !.nfev = 4, !.j0 = -1],
  [Base EXCEPT !.jpre = FALSE, !.nfev = 4, !.j0 = -2],
  [Base EXCEPT !.cycl = 1],
  [Base EXCEPT !.cycl = 2, !.minfac = FRat(1, 4)],
  [Base EXCEPT !.cycl = 4, !.red = <<2, 1>>, !.minfac = FRat(1, 8)],
  [Base EXCEPT !.maxfac = FRat(5, 4), !.inc = <<1, 1>>, !.incs = 4],
  [Base EXCEPT !.maxfac = FOne, !.incs = 2],
  [Base EXCEPT !.dxtol = FNum(2), !.jpre = FALSE, !.nfev = 4],
  [Base EXCEPT !.dxtol = FOne, !.sc = FALSE, !.jpre = FALSE, !.nfev = 4, !.cycl = 4],
  [Base EXCEPT !.jfixed = TRUE, !.nfev = 4, !.j0 = 2, !.sc = FALSE],
  [Base EXCEPT !.incs = 1, !.nfev = 2],
  [Base EXCEPT !.xlim = [on |-> TRUE, comp |-> 1, val |-> FRat(1, 32)], !.incs = 4],
  [Base EXCEPT !.n = 2, !.lim0 = Lims(2, 32, 128), !.incs = 4],
  [Base EXCEPT !.incs = 0],
  [Base EXCEPT !.j0 = 1],
  [Base EXCEPT !.xlim = [on |-> TRUE, comp |-> 0, val |-> FRat(1, 16)], !.incs = 6, !.sc = FALSE, !.jpre = FALSE, !.nfev = 4],
  \* long load cases: growth after a reduction
  [Base EXCEPT !.n = 2, !.lim0 = Lims(2, 32, 128), !.jfixed = TRUE, !.j0 = 2, !.nfev = 4, !.incs = 9, !.cycl = 4, !.dxtol = FNum(8), !.red = <<2, 1>>, !.minfac = FRat(1, 64)],
  [Base EXCEPT !.jpre = FALSE, !.nfev = 4, !.incs = 9, !.cycl = 4, !.dxtol = FNum(8), !.red = <<2, 1>>, !.minfac = FRat(1, 64)],
  \* equal limits
  [Base EXCEPT !.lim0 = Lims(3, 32, 32)],
  [Base EXCEPT !.lim0 = Lims(3, 16, 16), !.jpre = FALSE, !.nfev = 4, !.cycl = 2],
  \* everything but the limits as by default
  [Base EXCEPT !.incs = 20, !.nfev = 8, !.cycl = 4, !.maxfac = FNum(10), !.minfac = FTen(6), !.red = <<8, 1>>, !.inc = <<1, 1>>, !.ns = {7}],
  \* growth far above the requested limits, reductions that end above them
  [Base EXCEPT !.n = 2, !.lim0 = Lims(2, 32, 128), !.jfixed = TRUE, !.j0 = 2, !.incs = 9, !.cycl = 4, !.dxtol = FNum(8), !.red = <<2, 1>>, !.maxfac = FNum(8), !.inc = <<2, 1>>]
>>
All == 1..20
Every == 1..Len(Mods)
Long == {21, 22, 26}
Small == {1,3,5}
Told == {17}
Ratios3 == {-4, 4, 8}
Ratios4 == {-4, 2, 4, 8}
RatiosG == {-8, -6, -5, -4, -2, -1, 1, 2, 4, 5, 6, 8}
=============================================================================
