------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Several models in one program: creating, editing, building, running and *)
(* drawing in any order.  What a run yields depends on the definition and  *)
(* the settings only; what is printed goes to the log file of the model    *)
(* (if there is one) or to the stream the caller uses at that time.        *)
(*                                                                         *)
(* Functional core: the state of a session                                 *)
(*   def, set   current definition / settings of each model (0: none yet)  *)
(*   log, file  log level and whether the model writes a log file          *)
(*   built      the model was built (and neither edited nor run since)     *)
(*   fresh      the definition was not touched since it was run            *)
(*   res        [d, s] what the results of the model are a function of     *)
(*   cur        the stream in use by the caller                            *)
(*   out        per stream: what was printed to it, as chunks              *)
(*   fil        per model: what its log file contains, as chunks           *)
(* A chunk [w, d, s, l] is what operation w of a model with definition d,  *)
(* settings s and log level l prints.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

NoRes == [d |-> 0, s |-> 0]
Start(Models, Streams) ==
  [def |-> [m \in Models |-> 0], set |-> [m \in Models |-> 0], log |-> [m \in Models |-> 0], file |-> [m \in Models |-> FALSE],
   made |-> [m \in Models |-> FALSE], built |-> [m \in Models |-> FALSE], fresh |-> [m \in Models |-> FALSE], res |-> [m \in Models |-> NoRes], cur |-> 1,
   out |-> [q \in Streams |-> <<>>], fil |-> [m \in Models |-> <<>>]]

Chunk(w, S, m) == [w |-> w, d |-> S.def[m], s |-> S.set[m], l |-> S.log[m]]
\* where a model prints
Emits(S, m, c) == IF S.file[m] THEN [S EXCEPT !.fil[m] = Append(@, c)] ELSE [S EXCEPT !.out[S.cur] = Append(@, c)]

Create(S, m, l, f) == LET T == [S EXCEPT !.log[m] = l, !.file[m] = f, !.made[m] = TRUE]
                      IN Emits(T, m, [w |-> "create", d |-> 0, s |-> 0, l |-> l])
Edit(S, m, d) == [S EXCEPT !.def[m] = d, !.built[m] = FALSE, !.fresh[m] = FALSE]
SetTo(S, m, s) == [S EXCEPT !.set[m] = s]
\* outcome of building/running a definition: refused, raises or ok
Build(S, m, how) == LET T == Emits(S, m, Chunk("build", S, m))
                    IN [T EXCEPT !.fresh[m] = FALSE, !.built[m] = (how = "ok"), !.res[m] = NoRes]
Run(S, m, how) == LET T == Emits(S, m, Chunk("run", S, m))
                  IN [T EXCEPT !.built[m] = FALSE, !.fresh[m] = (how = "ok"), !.res[m] = IF how = "ok" THEN [d |-> S.def[m], s |-> S.set[m]] ELSE NoRes]
Switch(S, q) == [S EXCEPT !.cur = q]
=============================================================================
