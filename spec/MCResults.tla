----------------------------- MODULE MCResults -----------------------------
(* All histories of the book within bounds; GEN: histories for the replay. *)
EXTENDS Results, TLC, Json
CONSTANTS Depth, MaxLen, Values, GEN
VARIABLES b, hist, ok
vars == <<b, hist, ok>>
Ops == {<<w, f>> : w \in {"add", "addf", "blank"}, f \in Values} \cup {<<w>> : w \in {"copy", "remove", "first", "build"}}
       \cup {<<w, k, v>> : w \in {"touch", "force"}, k \in 1..MaxLen, v \in Values} \cup {<<w, v>> : w \in {"src", "frc"}, v \in Values}
Init == b = Empty /\ hist = <<>> /\ ok = TRUE
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ Enabled(b, o)
                          /\ LET a == Apply(b, o) IN Len(a.b.recs) <= MaxLen /\ b' = a.b /\ ok' = a.ok
                          /\ hist' = Append(hist, o)
        /\ IF GEN /\ Len(hist') = Depth THEN PrintT("BOOK|" \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
\* an operation concerns one record at most; all others keep what they hold
Same(p, q) == b.recs[p] = b'.recs[q]
Snapshots == [][LET o == hist'[Len(hist')] n == Len(b.recs) m == Len(b'.recs) IN
  /\ o[1] \in {"src", "frc"} => b'.recs = b.recs
  /\ o[1] \in {"add", "addf", "blank", "copy"} => m = n + 1 /\ \A q \in 1..n : Same(q, q)
  /\ o[1] = "remove" => m = n - 1 /\ \A q \in 1..m : Same(q, q)
  /\ o[1] = "first" => m = n + 1 /\ \A q \in 1..n : Same(q, q + 1)
  /\ o[1] \in {"touch", "force"} => m = n /\ \A q \in 1..n : q # o[2] => Same(q, q)
  /\ o[1] = "build" => m = n /\ \A q \in 1..(n - 1) : Same(q, q)
  /\ ~ok' => b' = b]_vars
\* records with a force were given one
Forces == \A q \in 1..Len(b.recs) : b.recs[q].p # -1 => b.recs[q].v # -1
=============================================================================
