----------------------------- MODULE TraceMovie -----------------------------
(***************************************************************************)
(* Trace checker: movies.  want: requested increments, in order; png: for  *)
(* each frame file (in the order of the numbers in their names) the        *)
(* requested increments whose model drawing is equal to it; gif: for each  *)
(* frame of the movie the differences to the drawings of the requested     *)
(* increments; same[i]: drawings that do not differ from that of want[i]   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, out
T == Traces[tid]
N == Len(T.want)
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Verdict ==
  IF T.how # "ok" THEN "movie-failed"
  ELSE IF ~T.kept THEN "movie-changes-results"
  ELSE IF Len(T.png) # N THEN "frame-files"
  ELSE IF \E i \in 1..N : ~Has(T.png[i], T.want[i]) THEN "frame-content"
  ELSE IF Len(T.gif) # N THEN "movie-frames"
  ELSE IF \E i \in 1..N : \E j \in 1..N : j # i /\ ~Has(T.same[i], T.want[j]) /\ T.gif[i][j] <= T.gif[i][i] THEN "movie-order"
  ELSE "ok"
Init == tid \in 1..Len(Traces) /\ out = ""
Next == out = "" /\ out' = Verdict /\ PrintT("VERDICT|" \o T.id \o "|0|" \o out') /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, out>>
=============================================================================
