---------------------------- MODULE TraceResults ----------------------------
(* Trace checker of the book of results.  Trace: ev: sequence of           *)
(* [o, ok, recs] with the records seen after the operation; a value -2     *)
(* stands for arrays of one record that do not agree.                      *)
EXTENDS Results, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, b, out
vars == <<tid, k, b, out>>
T == Traces[tid]
E == T.ev[k]
Stop(c) == PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o c) /\ out' = c /\ UNCHANGED <<tid, k, b>>
Init == tid \in 1..Len(Traces) /\ k = 1 /\ b = Empty /\ out = ""
Step == LET a == Apply(b, E.o) IN
  IF ~Enabled(b, E.o) THEN Stop("book-disabled")
  ELSE IF E.ok # a.ok THEN Stop("book-refusal")
  ELSE IF Len(E.recs) # Len(a.b.recs) THEN Stop("book-length")
  ELSE IF \E q \in 1..Len(E.recs) : E.recs[q].f # a.b.recs[q].f THEN Stop("book-factor")
  ELSE IF \E q \in 1..Len(E.recs) : E.recs[q].v # a.b.recs[q].v THEN Stop("book-values")
  ELSE IF \E q \in 1..Len(E.recs) : E.recs[q].p # a.b.recs[q].p THEN Stop("book-forces")
  ELSE k' = k + 1 /\ b' = a.b /\ UNCHANGED <<tid, out>>
Next == out = "" /\ IF k > Len(T.ev) THEN Stop("ok") ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
