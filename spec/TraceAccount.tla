--------------------------- MODULE TraceAccount ---------------------------
(***************************************************************************)
(* Trace checker: is the log of a load case a truthful account of what     *)
(* happened?  The recorded load case is followed through the controller    *)
(* (TracePathFollow); every step of the controller has to be accompanied   *)
(* by exactly the lines of the log which the specification expects.        *)
(*                                                                         *)
(* A trace has, additionally, level and log: the lines [w, a, v] (kind,    *)
(* integers, numbers) of the load case in order:                           *)
(*   inc    number of the increment                                        *)
(*   pre    prediction: cycle, 0, control; |residual|, leading component   *)
(*   it     Newton iteration: number; |residual|                           *)
(*   cyc    attempt: cycle, iterations, control; |residual|, the (up to)   *)
(*          three leading components with their movements                  *)
(*   limit, wait, reduce, hold, grow   what the step width control does    *)
(*   err1, err2, again, final, exit    how it goes on                      *)
(***************************************************************************)
EXTENDS TracePathFollow
VARIABLE pos
avars == <<vars, pos>>

Line(w, a, v) == [w |-> w, a |-> a, v |-> v]
Shown(lines) == SelectSeq(lines, LAMBDA e : CASE e.w \in {"pre", "cyc"} -> T.level >= 2
                                              [] e.w \in {"inc", "it", "final"} -> T.level >= 1
                                              [] OTHER -> TRUE)
\* printed with some significant digits
Digits(p, v, rel, abs) == FLe(FAbs(FSub(p, v)), FAdd(FMul(FAbs(v), rel), abs))
Residual(t, g) == LET q == Append(g, FSub(t[AbsI(st.j)], FAdd(x[AbsI(st.j)], FSigned(FMul(c.lim0[AbsI(st.j)], st.fac), st.j))))
                  IN FSqrt(Dot(q, q))
Tiny(t) == FMul(FTen(13), FAdd(FOne, FMaxSeq(t)))
Move(t) == LET lim == Lim(c, st.fac) IN TLCEval([m \in 1..c.n |-> FDiv(FSub(t[m], x[m]), lim[m])])

\* the components of the line are the leading ones in order, with their movements
Led(comps, vals, m, count, rel, abs) ==
  LET near(u, v) == FLe(u, FAdd(FAdd(v, FMul(v, FTen(9))), FTen(12)))
  IN /\ Len(comps) = count /\ Len(vals) = count
     /\ \A q \in 1..count : comps[q] \in 1..c.n /\ Digits(vals[q], m[comps[q]], rel, abs)
     /\ \A p \in 1..count : \A q \in 1..count : p < q => comps[p] # comps[q] /\ near(FAbs(m[comps[q]]), FAbs(m[comps[p]]))
     /\ \A q \in (1..c.n) \ {comps[p] : p \in 1..count} : near(FAbs(m[q]), FAbs(m[comps[count]]))
Fewer(a, b) == IF a < b THEN a ELSE b

\* does line e say what is expected?
Agrees(e, w) ==
  /\ e.w = w.w
  /\ CASE w.w = "inc" -> e.a = w.a
       [] w.w = "it" -> e.a = w.a /\ Digits(e.v[1], w.v[1], FMul(FNum(6), FTen(4)), w.v[2])
       [] w.w = "pre" -> /\ SubSeq(e.a, 1, 3) = w.a /\ Digits(e.v[1], w.v[1], FMul(FNum(6), FTen(4)), w.v[2])
                         /\ Led(SubSeq(e.a, 4, 4), SubSeq(e.v, 2, 2), w.m, 1, FRat(1, 2), FTen(6))
       [] w.w = "cyc" -> /\ SubSeq(e.a, 1, 3) = w.a /\ Digits(e.v[1], w.v[1], FMul(FNum(6), FTen(4)), w.v[2])
                         /\ LET n == Fewer(3, c.n) IN Led(SubSeq(e.a, 4, 3 + n), SubSeq(e.v, 2, 1 + n), w.m, n, FTen(6), FMul(FNum(6), FTen(5)))
       [] w.w \in {"reduce", "grow"} -> Digits(e.v[1], w.v[1], FMul(FNum(6), FTen(3)), FTen(20))
       [] w.w = "hold" -> e.a = w.a
       [] w.w = "final" -> Digits(e.v[1], w.v[1], FMul(FNum(6), FTen(4)), FTen(20))
       [] OTHER -> TRUE

\* what the step width control announces
Said(n, nf) == [q \in 1..Len(said'.say) |->
  LET w == said'.say[q] IN
  CASE w = "reduce" -> Line(w, <<>>, <<FRat(c.red[2], c.red[1])>>)
    [] w = "grow" -> Line(w, <<>>, <<FAdd(FOne, FRat((nf - n) * c.inc[1], nf * c.inc[2]))>>)
    [] w = "hold" -> Line(w, <<said'.b, 3>>, <<>>)
    [] OTHER -> Line(w, <<>>, <<>>)]

\* the lines that accompany the transition from the unprimed to the primed state
Row(w, n, used) == [w |-> w, a |-> <<n, used, st.j>>, v |-> <<Residual(E.t, E.g), Tiny(E.t)>>, m |-> Move(E.t)]
Opening == IF it = 0 /\ fresh /\ (ph = "pre" \/ (ph = "att" /\ ~Predicts(c))) THEN <<Line("inc", <<i + 1>>, <<>>)>> ELSE <<>>
Ending == CASE said'.out = "again" -> <<Line("again", <<>>, <<>>)>>
            [] said'.out \in {"err1", "err2"} -> <<Line(said'.out, <<>>, <<>>), Line("final", <<>>, <<x[c.n]>>)>>
            [] OTHER -> <<>>
Attempt == Opening \o <<Line("it", <<it + 1>>, <<Residual(E.t, E.g), Tiny(E.t)>>)>>
           \o (IF said'.out = "" THEN <<>>
               ELSE <<Row("cyc", st.z + 1, it + 1 + (IF fresh /\ Predicts(c) THEN 1 ELSE 0))>> \o Said(it + 1, Budget(c, fresh)) \o Ending)
\* the limit of the observed component is announced if it is exceeded, also in the last increment
Exits == IF i + 1 < c.incs THEN {ph' = "end"} ELSE ExceedsSet(c, E.t)
Accepted(exit) == <<Line("final", <<>>, <<E.t[c.n]>>)>> \o (IF exit THEN <<Line("exit", <<>>, <<>>)>> ELSE <<>>)
Expected ==
  CASE ph = "pre" -> {Opening \o <<Row("pre", 1, 0)>>}
    [] ph \in {"att", "again"} -> {Attempt}
    [] ph = "acc" -> {Accepted(e) : e \in Exits}
    [] OTHER -> {<<>>}

Wrong(lines, q) == pos + q > Len(T.log) \/ ~Agrees(T.log[pos + q], lines[q])
Over == ph' \in {"end", "invalid", "unconverged"}
\* what is wrong with the log here ("" if nothing)
Check(lines) ==
  LET bad == {q \in 1..Len(lines) : Wrong(lines, q)}
  IN IF bad # {} THEN "account-" \o lines[CHOOSE q \in bad : \A p \in bad : q <= p].w
     ELSE IF Over /\ pos + Len(lines) # Len(T.log) THEN "account-surplus"
     ELSE ""
AInit == Init /\ pos = 0
ANext ==
  /\ out = ""
  /\ IF ph \in {"end", "invalid", "unconverged"}
     THEN Stop(IF pos = Len(T.log) THEN "ok" ELSE "account-surplus") /\ pos' = pos
     ELSE \/ /\ Predict \/ Iterate \/ Accept
             /\ out' # "" /\ pos' = pos
          \/ /\ Predict \/ Iterate \/ Accept
             /\ out' = ""
             /\ \E lines \in {TLCEval(Shown(l)) : l \in Expected} :
                  LET b == Check(lines)
                  IN IF b = "" THEN pos' = pos + Len(lines)
                     ELSE pos' = -1 /\ PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o b)
ASpec == AInit /\ [][pos >= 0 /\ ANext]_avars
=============================================================================
