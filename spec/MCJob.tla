------------------------------- MODULE MCJob -------------------------------
(***************************************************************************)
(* The state machine of a job.  An increment is attempted from the last    *)
(* accepted state (displacement u, load factor l, material history h); an  *)
(* attempt changes only the trial state tr.  It is accepted, repeated or   *)
(* fails for good, the latter ends the load case.  The next load case      *)
(* starts from the last accepted state with its own load factor at zero.   *)
(* `script` is what happens in which order; it is printed and realised in  *)
(* the real code by disturbing the equilibrium function.                   *)
(***************************************************************************)
EXTENDS Job, TLC, Json
CONSTANTS Cases, MaxIncs, MaxAgain, GEN
VARIABLES s, n, again, u, l, h, tr, recs, ends, incs, script, pc
vars == <<s, n, again, u, l, h, tr, recs, ends, incs, script, pc>>

Moves == {-1, 1}
Init == /\ incs \in [1..Cases -> 0..MaxIncs]
        /\ s = 1 /\ n = 0 /\ again = 0 /\ u = 0 /\ l = 0 /\ h = <<>>
        /\ tr = [u |-> 0, l |-> 0]
        /\ recs = <<[step |-> 1, u |-> 0, u0 |-> 0, lpf |-> 0, h |-> <<>>, const |-> <<>>]>>
        /\ ends = <<>> /\ script = <<>> /\ pc = "run"

Const == [q \in 1..(s - 1) |-> ends[q]]
\* a load case ends
Close(last) == /\ ends' = Append(ends, last)
               /\ IF s < Cases THEN s' = s + 1 /\ n' = 0 /\ again' = 0 /\ l' = 0 /\ pc' = "run"
                               ELSE pc' = "end" /\ UNCHANGED <<s, n, again, l>>
Attempt(du, dl) ==
  /\ pc = "run" /\ n < incs[s]
  /\ tr' = [u |-> u + du, l |-> l + dl] /\ pc' = "judge"
  /\ UNCHANGED <<s, n, again, u, l, h, recs, ends, incs, script>>
Accept ==
  /\ pc = "judge"
  /\ u' = tr.u /\ h' = Append(h, tr.u)
  /\ recs' = Append(recs, [step |-> s, u |-> tr.u, u0 |-> u, lpf |-> tr.l, h |-> h', const |-> Const])
  /\ script' = Append(script, [s |-> s, o |-> "ok"])
  /\ \/ n + 1 < incs[s] /\ l' = tr.l /\ n' = n + 1 /\ again' = 0 /\ pc' = "run" /\ UNCHANGED <<s, ends>>
     \/ n + 1 = incs[s] /\ Close(tr.l)
  /\ UNCHANGED <<tr, incs>>
Again ==
  /\ pc = "judge" /\ again < MaxAgain
  /\ again' = again + 1 /\ pc' = "run" /\ script' = Append(script, [s |-> s, o |-> "again"])
  /\ UNCHANGED <<s, n, u, l, h, tr, recs, ends, incs>>
Fail ==
  /\ pc = "judge"
  /\ script' = Append(script, [s |-> s, o |-> "fail"])
  /\ Close(l) /\ UNCHANGED <<u, h, tr, recs, incs>>
Nothing == \* a load case without increments
  /\ pc = "run" /\ n = 0 /\ incs[s] = 0 /\ Close(l) /\ UNCHANGED <<u, h, tr, recs, incs, script>>

Core == Accept \/ Again \/ Fail \/ Nothing \/ \E du \in Moves, dl \in Moves : Attempt(du, dl)
Next == Core /\ (GEN /\ pc' = "end" => PrintT("JOB|" \o ToJson([incs |-> incs, script |-> script'])))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- laws
Chain == \A k \in 2..Len(recs) : recs[k].u0 = recs[k - 1].u /\ recs[k].h = Append(recs[k - 1].h, recs[k].u)
Committed == u = recs[Len(recs)].u /\ h = recs[Len(recs)].h
Order == \A k \in 2..Len(recs) : recs[k - 1].step <= recs[k].step /\ recs[k].step <= s
Bounded == \A q \in 1..Cases : Len(OfCase(recs, q)) <= incs[q]
Ends == \A q \in 1..Len(ends) : ends[q] = EndOf(recs, q, 0)
Constant == \A k \in 2..Len(recs) : recs[k].const = [q \in 1..(recs[k].step - 1) |-> ends[q]]
StartsAtZero == \A q \in 1..s : LET m == OfCase(recs, q) IN m # <<>> => m[1].lpf \in Moves
OnePerCase == pc = "end" => Len(ends) = Cases
AsScripted == Len(recs) - 1 = Len(SelectSeq(script, LAMBDA e : e.o = "ok"))
Immutable == [][IsPrefix(recs, recs') /\ IsPrefix(ends, ends')]_vars
FailureLeavesNoTrace == [][pc = "judge" /\ pc' = "run" /\ s' = s /\ again' # 0 => UNCHANGED <<u, l, h, recs, ends>>]_vars
Terminates == <>(pc = "end")
=============================================================================
