------------------------------ MODULE TraceLog ------------------------------
(***************************************************************************)
(* Trace checker: the summary of increments in the log of a run.           *)
(* Trace: level, cases: per load case [incs (requested), over (the last    *)
(*   reported increment exceeds the limit of the observed component),      *)
(*   lpf (factors of the reported increments)], log: the lines of the      *)
(*   summary in order: [w |-> "step"|"inc"|"final"|"error"|"exit"|"write", *)
(*   n, v]; res, quiet: all the results of this run and of the same run    *)
(*   at another level of the log                                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Fix, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, out
T == Traces[tid]
Line(w, n, v) == [w |-> w, n |-> n, v |-> v]
Failed(c) == ~c.over /\ Len(c.lpf) < c.incs
Case(s) ==
  LET c == T.cases[s] m == Len(c.lpf)
      start == IF m = 0 THEN FZero ELSE c.lpf[m]
      summary == FoldLeft(LAMBDA a, i : a \o <<Line("inc", i, FZero), Line("final", 0, c.lpf[i])>>, <<Line("step", s, FZero)>>, [i \in 1..m |-> i])
      failure == IF Failed(c) THEN <<Line("inc", m + 1, FZero), Line("error", 0, FZero), Line("final", 0, start)>> ELSE <<>>
      exit == IF c.over THEN <<Line("exit", 0, FZero)>> ELSE <<>>
      writes == [i \in 1..m |-> Line("write", i, c.lpf[i])]
      all == summary \o failure \o exit \o writes \o <<Line("end", s, FZero)>>
      shown == CASE T.level = 0 -> {"error", "exit"} [] T.level = 1 -> {"step", "inc", "final", "error", "exit", "end"} [] OTHER -> {"step", "inc", "final", "error", "exit", "write", "end"}
  IN SelectSeq(all, LAMBDA x : x.w \in shown)
Want == FoldLeft(LAMBDA a, s : a \o Case(s), <<>>, [s \in 1..Len(T.cases) |-> s])
\* printed with four digits
Shown(p, v) == FLe(FAbs(FSub(p, v)), FAdd(FMul(FAbs(v), FMul(FTen(4), FNum(6))), FTen(20)))
Announce(w) == SelectSeq(w, LAMBDA x : x.w \in {"error", "exit"})
\* the log is an observer: another level does not change any result
SameResults == /\ Len(T.res) = Len(T.quiet)
               /\ \A i \in 1..Len(T.res) : T.res[i].step = T.quiet[i].step /\ VClose(T.res[i].v, T.quiet[i].v, FTen(12), FTen(12))
Verdict == LET w == Want g == T.log
           IN IF ~SameResults THEN "log-dependent"
              ELSE IF Len(Announce(g)) # Len(Announce(w)) \/ \E i \in 1..Len(Announce(w)) : Announce(g)[i].w # Announce(w)[i].w THEN "announced"
              ELSE IF Len(w) # Len(g) \/ \E i \in 1..Len(w) : w[i].w # g[i].w \/ w[i].n # g[i].n THEN "summary"
              ELSE IF \E i \in 1..Len(w) : ~Shown(g[i].v, w[i].v) THEN "summary-factor" ELSE "ok"
Init == tid \in 1..Len(Traces) /\ out = ""
Next == out = "" /\ out' = Verdict /\ PrintT("VERDICT|" \o T.id \o "|0|" \o out') /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, out>>
=============================================================================
