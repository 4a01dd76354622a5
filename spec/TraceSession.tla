--------------------------- MODULE TraceSession ---------------------------
(***************************************************************************)
(* Trace checker: sessions with several real models.                       *)
(* File: [ref |-> results of fresh models, per definition and settings,    *)
(*        txt |-> what fresh models print: texts by number,                *)
(*        chunks |-> number of the text of a chunk: [w, d, s, l, t],       *)
(*        res |-> table of all observed results, traces |-> ...]           *)
(* results: sequence of records [step, v (all numbers)], <<>>: none        *)
(* Trace: ev: sequence of [o, how (ok/failed), obs]                        *)
(* obs: cur (stream in use, 0: unknown), def, set (numbers in the pool of  *)
(*   each model, 0: something else), res (number in the table, 0: none),   *)
(*   ends, held (reported results are untouched), out, fil (number of the  *)
(*   text added to each stream / log file), kept (earlier text untouched)  *)
(***************************************************************************)
EXTENDS Session, Fix, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
VARIABLES tid, k, S, out
vars == <<tid, k, S, out>>
T == Traces[tid]
E == T.ev[k]
O == E.obs
Models == 1..T.n
Stop(c) == PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o c) /\ out' = c /\ UNCHANGED <<tid, k, S>>
Init == tid \in 1..Len(Traces) /\ k = 1 /\ S = Start(1..Traces[tid].n, 1..2) /\ out = ""

How(d, what) == IF d = 5 THEN "refused" ELSE IF d = 6 /\ what = "run" THEN "raises" ELSE "ok"
After == LET o == E.o m == o.m IN
  CASE o.k = "create" -> Create(S, m, o.l, o.f)
    [] o.k = "edit" -> Edit(S, m, o.d)
    [] o.k = "set" -> SetTo(S, m, o.s)
    [] o.k = "build" -> Build(S, m, How(S.def[m], "build"))
    [] o.k = "run" -> Run(S, m, How(S.def[m], "run"))
    [] o.k = "draw" -> S
    [] o.k = "switch" -> Switch(S, o.q)
Expected == IF E.o.k \in {"build", "run"} /\ How(S.def[E.o.m], E.o.k) # "ok" THEN "failed" ELSE "ok"

Text(c) == LET x == SelectSeq(File.chunks, LAMBDA p : p.w = c.w /\ p.d = c.d /\ p.s = c.s /\ p.l = c.l) IN x[1].t
\* the text of what was added to a sequence of chunks (0: nothing)
Added(a, b) == IF Len(b) = Len(a) THEN 0 ELSE Text(b[Len(b)])

SameRes(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : a[i].step = b[i].step /\ VClose(a[i].v, b[i].v, FTen(6), FTen(8))
ResOk(n, r) == IF r = NoRes THEN TRUE ELSE n # 0 /\ SameRes(File.res[n], File.ref[r.d][r.s])

Broken(A) ==
  LET M == E.o.m IN
  IF E.how # Expected THEN E.o.k \o "-" \o E.how
  ELSE IF O.cur # A.cur THEN "stream"
  ELSE IF ~O.kept THEN "output-lost"
  ELSE IF \E q \in 1..2 : O.out[q] # Added(S.out[q], A.out[q]) THEN "printed"
  ELSE IF \E m \in Models : O.fil[m] # Added(S.fil[m], A.fil[m]) THEN "logfile"
  ELSE IF \E m \in Models : A.def[m] # 0 /\ O.def[m] # A.def[m] THEN IF \E m \in Models \ {M} : A.def[m] # 0 /\ O.def[m] # A.def[m] THEN "other-definition" ELSE "definition-" \o E.o.k
  ELSE IF \E m \in Models : A.set[m] # 0 /\ O.set[m] # A.set[m] THEN IF \E m \in Models \ {M} : A.set[m] # 0 /\ O.set[m] # A.set[m] THEN "other-settings" ELSE "settings-" \o E.o.k
  ELSE IF ~O.held THEN "held-results"
  ELSE IF E.o.k = "run" /\ ~ResOk(O.res[M], A.res[M]) THEN "results"
  ELSE IF \E m \in Models : ~ResOk(O.res[m], A.res[m]) THEN IF \E m \in Models \ {M} : ~ResOk(O.res[m], A.res[m]) THEN "other-results" ELSE "results-" \o E.o.k
  ELSE ""
Next == /\ out = ""
        /\ IF k > Len(T.ev) THEN Stop("ok")
           ELSE LET A == After b == Broken(A)
                IN IF b # "" THEN Stop(b) ELSE k' = k + 1 /\ S' = A /\ UNCHANGED <<tid, out>>
Spec == Init /\ [][Next]_vars
=============================================================================
