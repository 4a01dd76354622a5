----------------------------- MODULE MCSession -----------------------------
(* State machine of sessions: laws, and generation of interleavings.        *)
EXTENDS Session, TLC, Json, Randomization
CONSTANTS Models, Streams, Defs, Sets, Levels, Depth, GEN
VARIABLES S, ops, done
vars == <<S, ops, done>>
\* definitions which are refused / whose run raises
How(d, what) == IF d = 5 THEN "refused" ELSE IF d = 6 /\ what = "run" THEN "raises" ELSE "ok"
Pick(X) == IF GEN /\ X # {} THEN RandomSubset(1, X) ELSE X
Init == S = Start(Models, Streams) /\ ops = <<>> /\ done = FALSE
Do(T, o) == S' = T /\ ops' = Append(ops, o) /\ UNCHANGED done
Rare(p) == ~GEN \/ RandomElement(1..p) = 1
Ready(m) == S.made[m] /\ S.def[m] # 0
BuildIt(m) == Do(Build(S, m, How(S.def[m], "build")), [k |-> "build", m |-> m])
RunIt(m) == Do(Run(S, m, How(S.def[m], "run")), [k |-> "run", m |-> m])
Next ==
  \/ /\ Len(ops) < Depth
     /\ \/ \E m \in Models : ~S.made[m] /\ \E l \in Pick(Levels), f \in Pick(BOOLEAN) : Do(Create(S, m, l, f), [k |-> "create", m |-> m, l |-> l, f |-> f])
        \/ \E m \in Models : S.made[m] /\ (S.def[m] = 0 \/ Rare(2)) /\ \E d \in Pick(Defs \ {S.def[m]}) : Do(Edit(S, m, d), [k |-> "edit", m |-> m, d |-> d])
        \/ \E m \in Models : Ready(m) /\ (S.set[m] = 0 \/ Rare(4)) /\ \E s \in Pick(Sets \ {S.set[m]}) : Do(SetTo(S, m, s), [k |-> "set", m |-> m, s |-> s])
        \/ \E m \in Models : Ready(m) /\ S.set[m] # 0 /\ (S.built[m] => Rare(6)) /\ BuildIt(m)
        \/ \E m \in Models : S.built[m] /\ RunIt(m)
        \/ \E m \in Models : GEN /\ S.built[m] /\ RunIt(m)
        \/ \E m \in Models : S.fresh[m] /\ Rare(2) /\ \E v \in Pick(1..3) : Do(S, [k |-> "draw", m |-> m, v |-> v])
        \/ Cardinality(Streams) > 1 /\ Rare(4) /\ \E q \in Pick(Streams \ {S.cur}) : Do(Switch(S, q), [k |-> "switch", m |-> 1, q |-> q])
  \/ GEN /\ Len(ops) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<S, ops>> /\ PrintT("SES|" \o ToJson(ops))
Spec == Init /\ [][Next]_vars
View == <<S, Len(ops), IF ops = <<>> THEN <<>> ELSE ops[Len(ops)]>>

\* the results of a model are those of its definition and settings at that time
Determined == \A m \in Models : /\ (S.fresh[m] => (S.res[m] # NoRes /\ S.res[m].d = S.def[m]))
                                /\ (S.res[m] # NoRes => S.res[m].d \in Defs \ {5, 6} /\ S.res[m].s \in Sets)
\* a model with a log file prints there and nowhere else; nobody else prints there
Separate == \A m \in Models : (~S.file[m] => S.fil[m] = <<>>) /\ \A i \in 1..Len(S.fil[m]) : S.fil[m][i].l = S.log[m]
\* nothing but the operation itself is affected
Isolated == [][Len(ops') > Len(ops) => \A m \in Models : m # ops'[Len(ops')].m =>
                 S'.def[m] = S.def[m] /\ S'.set[m] = S.set[m] /\ S'.res[m] = S.res[m] /\ S'.fil[m] = S.fil[m]]_vars
\* only the caller changes the stream in use, and output is never lost
StreamKept == [][(Len(ops') > Len(ops) /\ ops'[Len(ops')].k # "switch") => S'.cur = S.cur]_vars
OutputKept == [][\A q \in Streams : IsPrefix(S.out[q], S'.out[q])]_vars
\* running changes neither definition nor settings
RunKeeps == [][(Len(ops') > Len(ops) /\ ops'[Len(ops')].k \in {"build", "run", "draw"}) => S'.def = S.def /\ S'.set = S.set]_vars
=============================================================================
