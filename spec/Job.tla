-------------------------------- MODULE Job --------------------------------
(***************************************************************************)
(* A job: load cases in sequence.  Records are what is reported: the       *)
(* undeformed state followed by one record per accepted increment.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

\* the records of load case s (the first record is the undeformed state)
OfCase(recs, s) == SelectSeq(Tail(recs), LAMBDA x : x.step = s)
\* the load factor load case s ended with
EndOf(recs, s, zero) == LET m == OfCase(recs, s) IN IF m = <<>> THEN zero ELSE m[Len(m)].lpf
=============================================================================
