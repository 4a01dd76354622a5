------------------------------ MODULE Control ------------------------------
(***************************************************************************)
(* The controller of one load case, without numbers: which attempt follows *)
(* which.  The step factor is replaced by its level: how often it can      *)
(* still be reduced.  The parameters are variables that never change, so   *)
(* that Apalache checks the inductive invariant and the decrease of the    *)
(* rank for *all* of their values, and TLC checks that the controller of   *)
(* MCPathFollow (the one the real code is bound to) refines this one.      *)
(*                                                                         *)
(* Assumption: the allowed overshoot is at least one.  An attempt which    *)
(* converged but is not valid then changes the control component.          *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  incs,    \* number of increments requested
  \* @type: Int;
  cycl,    \* number of attempts allowed
  \* @type: Bool;
  sc,      \* adaptive step width
  \* @type: Int;
  top,     \* highest level of the step factor
  \* @type: Int;
  i,       \* accepted increments
  \* @type: Int;
  z,       \* recycle number of the attempt
  \* @type: Int;
  lv,      \* level of the step factor
  \* @type: Int;
  lv0,     \* level at the beginning of the increment
  \* @type: Int;
  spent,   \* attempts spent on the increment
  \* @type: Str;
  why      \* "" or the reason of the end

par == <<incs, cycl, sc, top>>
vars == <<incs, cycl, sc, top, i, z, lv, lv0, spent, why>>

Params == incs \in Nat /\ cycl \in Nat /\ cycl >= 1 /\ sc \in BOOLEAN /\ top \in Nat

Init == /\ Params
        /\ i = 0 /\ z = 0 /\ spent = 0
        /\ lv \in Nat /\ lv <= top /\ lv0 = lv
        /\ why = IF incs = 0 THEN "incs" ELSE ""

\* --- what a step does to increments, recycles, level and reason of the end ---
\* the new level after an accepted increment is any (growth, or back to the maximum) if the step width is adaptive
CoreAccept == /\ i' = i + 1 /\ z' = 0
              /\ lv' \in Nat /\ lv' <= top /\ (~sc => lv' = lv)
              /\ \/ why' = "xlimit"
                 \/ why' = IF i + 1 = incs THEN "incs" ELSE ""

\* converged, but some component moved too far
CoreOvershoot == /\ i' = i /\ lv' = lv
                 /\ IF z + 1 = cycl THEN why' = "err1" /\ z' = z ELSE why' = "" /\ z' = z + 1

\* not converged; same: the control component did not change
CoreFail(same) ==
  LET can == sc /\ lv > 0
      last == z + 1 = cycl
      cut == can /\ (same \/ last)
      z2 == IF can /\ last THEN 0 ELSE z
  IN /\ i' = i
     /\ IF z2 + 1 = cycl THEN why' = "err1" /\ z' = z /\ lv' = lv
        ELSE IF same /\ ~cut THEN why' = "err2" /\ z' = z /\ lv' = lv
        ELSE why' = "" /\ z' = z2 + 1 /\ lv' = IF cut THEN lv - 1 ELSE lv

CoreNext == /\ why = ""
            /\ CoreAccept \/ CoreOvershoot \/ (\E same \in BOOLEAN : CoreFail(same))
            /\ UNCHANGED par
core == <<incs, cycl, sc, top, i, z, lv, why>>

\* --- the same with the work counted -------------------------------------------
Accept == CoreAccept /\ spent' = 0 /\ lv0' = lv'
Overshoot == CoreOvershoot /\ lv0' = lv0 /\ spent' = spent + 1
Fail(same) == CoreFail(same) /\ lv0' = lv0 /\ spent' = spent + 1

Next == /\ why = ""
        /\ Accept \/ Overshoot \/ (\E same \in BOOLEAN : Fail(same))
        /\ UNCHANGED par
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == /\ Params
          /\ i \in Nat /\ z \in Nat /\ lv \in Nat /\ lv0 \in Nat /\ spent \in Nat
          /\ why \in {"", "incs", "xlimit", "err1", "err2"}

\* inductive for all parameters
Inv == /\ TypeOK
       /\ i <= incs /\ z < cycl /\ lv <= lv0 /\ lv0 <= top
       /\ why = "" => i < incs
       /\ why = "incs" => i = incs
       /\ why \in {"err1", "err2"} => i < incs
       /\ (why = "" /\ spent = 0) => (z = 0 /\ lv = lv0)
       /\ ~sc => lv = lv0
       /\ why = "" => spent <= (lv0 - lv) * cycl + z
       /\ spent <= (lv0 - lv) * cycl + z + 1
IndInit == Inv

\* C06: the attempts spent on an increment are bounded
Bounded == spent <= (lv0 + 1) * cycl

\* C06: every step decreases (incs - i, lv, cycl - z) lexicographically, hence every load case ends
Decrease ==
  \/ why' # ""
  \/ incs - i' < incs - i
  \/ i' = i /\ lv' < lv
  \/ i' = i /\ lv' = lv /\ cycl - z' < cycl - z
=============================================================================
