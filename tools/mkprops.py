#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review and to keep in step)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/trusspy/" + f for f in files],
                               state=[dict(name=n, meaning=m, where="src/trusspy/" + w) for n, m, w in state],
                               mechanism=[dict(name=n, where="src/trusspy/" + w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))
T = "The 8 existing tests run a handful of fixed example models and assert nothing beyond 'no exception'"

prop("C01", "Model definition is a faithful registry keyed by label",
     "After any sequence of adding, deleting and (re-)assigning nodes, elements, supports and forces, every label still in the model reports exactly the values last given to it and deleted labels report nothing. "
     "An operation on some labels never changes what other labels, other attributes, other models or the caller's own arguments contain. "
     "Values are stored as given (no rounding or truncation), also when elements carry a different number of material parameters (missing trailing parameters read as zero).",
     ["histories", "inputs"], "all histories of add/delete/assign calls over all labels (in any order, non-contiguous) on one or several models",
     T + "; they add each entity once, never delete one and never read a definition back.",
     ["handlers/handler_node.py", "handlers/handler_element.py", "handlers/handler_boundary.py", "handlers/handler_extforce.py", "core/node.py", "core/element.py", "core/boundary.py", "core/external_force.py"],
     [("row-parallel arrays per attribute, looked up by label", "handlers/handler_element.py:ElementHandler"), ("padding of material rows", "handlers/handler_element.py:add_element, assign_material")],
     [("labels / conns / *_properties / mat_type / elem_type", "parallel rows, one per label", "handlers/handler_element.py")],
     ["NodeHandler.labels/coords", "ElementHandler.get_*", "BoundaryHandler.Unodes/Uvalues", "ExternalForceHandler.nodes/forces"])

prop("C02", "Building a model normalises it: order and labels do not matter",
     "Building lays nodes out by ascending label, treats every node without a support as free and every node without a force as unloaded, and splits the degrees of freedom of the nodes exactly into locked and free ones as the supports say. "
     "The result reported for each labelled node and element does not depend on the order in which entities were added, nor on which (distinct, increasing) label numbers are used. "
     "A model whose supports or forces refer to a node that does not exist is refused.",
     ["inputs", "histories"], "all insertion orders, all label sets (non-contiguous, unsorted), all subsets of nodes with supports/forces",
     T + "; every test model uses labels 1..n in ascending order.",
     ["model.py", "handlers/handler_node.py", "handlers/handler_boundary.py", "handlers/handler_extforce.py"],
     [("fix_nodes / fix_bounds_U / fix_forces sort and complete", "handlers/"), ("sorting check raises IOError", "model.py:Model.build"), ("element access through labels", "model.py:Model.equilibrium")],
     [("nproDOF0 / nproDOF1", "locked / free flat indices", "model.py:Model.build")],
     ["Model.nproDOF0/nproDOF1", "Results.R[i].U/r/stretch/element_force"])

prop("C03", "Results depend only on the current definition and settings",
     "Building and running a model yields the same results as building and running a fresh model with the same current definition and settings, whatever was built, run, edited or drawn before. "
     "Running or editing one model never changes the definition or the results of another one, and running never changes the definition or the settings of the model itself (apart from completing missing supports and forces).",
     ["histories"], "all interleavings of define / edit / change settings / build / run / draw on one or several models",
     T + "; a re-run after an edit is executed once but its results are not compared with anything.",
     ["model.py", "handlers/handler_result.py", "handlers/handler_settings.py", "core/analysis.py", "solvers/tpsolver.py"],
     [("build() creates a fresh result collection and analysis state", "model.py:Model.build"), ("deep copies of forces and results", "model.py:Model.run, handlers/handler_result.py")],
     [("Analysis", "state of the current increment", "core/analysis.py")], ["Model.Results", "Model.Settings", "handlers"])

prop("C04", "Every reported increment is an equilibrium state",
     "In every increment reported after the undeformed one, the internal forces of the reported deformed configuration balance the reported load - the load-proportionality factor times the current load case plus the final loads of earlier load cases - at every free degree of freedom within the requested tolerance. "
     "Locked degrees of freedom have zero displacement in every increment.",
     ["inputs", "configurations"], "all models, materials, tolerances, control settings and load sequences",
     T + "; no test looks at a residual.",
     ["solvers/tpsolver.py", "solvers/zerosearch.py", "model.py", "elements/element_definition.py"],
     [("Newton iteration on the extended residual", "solvers/zerosearch.py:newton"), ("residual", "model.py:Model.equilibrium")],
     [("Results.R", "list of increments", "handlers/handler_result.py")], ["Results.R[i].U, .r, .g, .lpf, .ExtForces"])

prop("C05", "Every increment respects the step limits",
     "In every accepted increment the controlled component moves by exactly its current step limit, in the direction of the control. "
     "No component moves further than its current step limit times the allowed overshoot factor, unless the control component is locked by the user (then this holds for the locked one only). "
     "Displacement components are limited by the displacement limit and the load factor by the load-factor limit.",
     ["inputs", "configurations", "histories"], "all increments of all runs, over all limits, overshoot factors, initial control components and adaptive-step histories",
     T + "; step sizes are never inspected.",
     ["solvers/tpsolver.py"],
     [("control equation", "solvers/tpsolver.py:f"), ("validity check of the incremental solution", "solvers/tpsolver.py:pathfollow")],
     [("dVmax", "step limits used in the increment", "solvers/tpsolver.py")], ["Results.R[i].U, .lpf, .dVmax, .j"])

prop("C06", "Budgets and stop conditions of a run are honoured",
     "A run always ends: per load case it reports at most the requested number of increments, never spends more than the allowed recycles (counted anew after each step-size reduction forced by the last recycle) nor more than the allowed Newton iterations per increment attempt. "
     "A load case ends before its number of increments is used up if and only if the observed component has just exceeded its limit or an increment failed for good, and it ends at exactly that increment; a failure is announced in the log. "
     "Limits given per load case apply to their own load case.",
     ["inputs", "configurations", "fault_sequences"], "all limits, budgets, sequences of converging and failing attempts",
     T + "; early stops, failures and per-step limits are not checked.",
     ["solvers/tpsolver.py", "solvers/zerosearch.py", "model.py"],
     [("increment and recycle loops, EXIT 1 / ERROR 1 / ERROR 2", "solvers/tpsolver.py:pathfollow"), ("incs / xlimit per step", "model.py:Model.run")],
     [("i, z, b, stop", "loop counters", "solvers/tpsolver.py:pathfollow")], ["len(Results.R)", "Results.R[i].step", "calls of the equilibrium / stiffness functions"])

prop("C07", "Adaptive step width follows its documented law",
     "With adaptive control all step limits share one factor: after a failed attempt it is divided by the reduction setting if the control component did not change or the recycles are used up; after an increment that converged at once, with unchanged control component and at least three accepted increments after the one in which the limits were last reduced, it grows by 1 + (unused share of the iteration budget) times the increase setting. "
     "Otherwise it stays; it is not reduced at or below the minimum factor, an increase only starts below the maximum factor and at or above it the factor is set to the maximum. "
     "Without adaptive control the limits never change, and each load case starts with the original limits.",
     ["histories", "configurations", "fault_sequences"], "all histories of converging / failing / switching attempts and all controller settings",
     T + "; the controller's factor is never observed.",
     ["solvers/tpsolver.py", "model.py"],
     [("dxmax_control", "solvers/tpsolver.py:dxmax_control")], [("dxmax, b, z", "current limits, converged increments since reduction, recycles", "solvers/tpsolver.py")],
     ["Results.R[i].dVmax", "control displacement of every attempt"])

prop("C08", "A failed increment never becomes a result",
     "Every reported increment stems from a converged and valid attempt; an increment that fails for good contributes nothing to the reported results. "
     "Failed and repeated attempts have no lasting effect: each attempt starts from the last accepted state, and later increments and load cases continue from exactly that state (displacements, load factor, material state).",
     ["fault_sequences", "histories"], "all sequences of accepted, repeated and finally failing attempts, in one or several load cases",
     T + "; failing increments are not provoked and their effects not inspected.",
     ["solvers/tpsolver.py", "model.py", "handlers/handler_result.py"],
     [("x restored from x0 on recycle / failure", "solvers/tpsolver.py:pathfollow"), ("copying of results", "model.py:Model.run")],
     [("x0", "last accepted state", "solvers/tpsolver.py:pathfollow")], ["Results.R", "points of evaluation of the equilibrium function"])

prop("C09", "Load cases act in sequence and accumulate",
     "Load case k starts from the final displacements and material state of load case k-1 with its own load factor at zero and the initial control settings. "
     "During load case k the constant load is exactly the sum of all earlier load cases, each multiplied by the load factor it ended with, and only the forces of load case k are scaled by the current factor. "
     "The results of all load cases appear in order, tagged with the number of their load case, and one final load factor per load case is reported.",
     ["inputs", "histories", "configurations"], "all numbers of load cases, loads and final factors, including load cases that stop early or fail",
     T + "; the multi-step examples are executed but no load bookkeeping is checked.",
     ["model.py", "handlers/handler_extforce.py", "handlers/handler_result.py"],
     [("f0_const / forces slice per step", "model.py:Model.run")], [("step_lpf_end", "final factor per load case", "handlers/handler_result.py")],
     ["Results.R[i].ExtForces.forces_const/.forces, .lpf, .step", "Results.step_lpf_end"])

prop("C10", "Material laws: elastic and elastic-plastic with isotropic hardening",
     "The elastic law gives stress equal to modulus times strain. "
     "The elastic-plastic law responds elastically while the trial stress does not exceed the current yield stress; otherwise it returns to the yield surface, so that the stress never exceeds the updated yield stress in magnitude, plastic strain moves in the direction of the stress, the yield stress grows by the plastic modulus times the plastic strain increment and never decreases, and stress equals modulus times (strain minus plastic strain). "
     "The reported stiffness is the slope of that response: the modulus when elastic, E*K/(E+K) when plastic.",
     ["inputs", "histories"], "all strains, moduli, yield stresses and all loading / unloading / reversal histories",
     T + "; stresses, yield stresses and plastic strains are never compared with anything.",
     ["materials/material_definition.py"],
     [("umat_el", "materials/material_definition.py:umat_el"), ("return mapping", "materials/material_definition.py:umat_elplast_iso")],
     [("state_v", "[yield stress, plastic strain] per element", "materials/material_definition.py")], ["umat_el, umat_elplast_iso", "Analysis.element_stress, .state_v"])

prop("C11", "Material history advances exactly once per accepted increment",
     "The material state of every reported increment is the state of the previous one advanced by that increment's final strain, exactly once and for every element. "
     "Trial evaluations - Newton iterations, stiffness evaluations, repeated attempts, failed increments - leave the material state unchanged, and it is carried over unchanged from one load case to the next and starts virgin after building.",
     ["histories", "fault_sequences"], "all sequences of trial evaluations and commits over all elements, increments, attempts and load cases",
     T + "; the material state is never read.",
     ["model.py", "solvers/tpsolver.py", "materials/material_definition.py"],
     [("copy of the state per evaluation, write only when committing", "model.py:Model.equilibrium"), ("commit after acceptance", "solvers/tpsolver.py:pathfollow")],
     [("Analysis.state_v", "committed material state", "core/analysis.py")], ["Results.R[i].state_v", "Analysis.state_v around calls of equilibrium / stiffness"])

prop("C12", "Internal forces follow finite-displacement truss kinematics",
     "For any displacements each element reports the stretch deformed length over undeformed length, the stress of its material at the strain stretch minus one, and the normal force stress times its area. "
     "The internal force vector at every node is the sum over its connected elements of that normal force along the deformed element axis, with opposite signs at both ends, and the residual is external minus internal force at the free degrees of freedom. "
     "Evaluations depend only on the given displacements, load factor and committed state, not on earlier evaluations.",
     ["inputs", "histories"], "all geometries, connectivities, areas, displacements (large rotations included) and sequences of evaluations",
     T + "; forces and stretches are never compared with an independent computation.",
     ["elements/element_definition.py", "model.py"],
     [("truss element", "elements/element_definition.py:truss"), ("assembly", "model.py:Model.equilibrium")],
     [("r, stretch, element_force, element_stress", "per-node and per-element results", "core/analysis.py")], ["Model.equilibrium", "Results.R[i]"])

prop("C13", "Tangent stiffness is the exact derivative of the internal forces",
     "For any displacements at which the response is smooth, the stiffness matrix is the derivative of the internal forces with respect to the displacements (material and geometric part), symmetric, assembled from all elements between the connected nodes and reduced to the free degrees of freedom in their order. "
     "Evaluating it changes neither the forces nor the material state.",
     ["inputs", "histories"], "all models, displacements (compression, tension, plastic loading and unloading) and evaluation sequences",
     T + "; test_stiffness_function evaluates one matrix without checking it.",
     ["elements/element_definition.py", "model.py"],
     [("KTEE blocks", "elements/element_definition.py:truss"), ("reshape and reduce", "model.py:Model.stiffness")],
     [("K, Kred", "full and reduced stiffness", "core/analysis.py")], ["Model.stiffness", "Analysis.K"])

prop("C14", "Results form an immutable, complete, ordered record",
     "The results of a run are the undeformed state followed by all accepted increments of all load cases in order, without gaps or duplicates, and never change after they were reported. "
     "Each increment is self-consistent: displacements, load factor, forces, stretches, stresses, material state and applied loads all belong to the same final state, and its start displacements are the final displacements of the previous increment. "
     "Full, flattened and reduced read access to one result agree.",
     ["histories", "inputs"], "all runs, and all later operations (further increments, re-runs, edits, drawings)",
     T + "; results are only plotted.",
     ["handlers/handler_result.py", "core/analysis.py", "model.py", "solvers/tpsolver.py"],
     [("deep copies per increment", "handlers/handler_result.py, solvers/tpsolver.py"), ("start displacements chained", "model.py:Model.run")],
     [("Results.R", "list of increments", "handlers/handler_result.py")], ["Results.R[i].*", "Analysis.get_U / get_r", "ResultHandler.get_result"])

prop("C15", "History and path curves show exactly the recorded results",
     "A history curve starts with a zero point followed by, for every reported increment in order, the requested quantity (displacement or internal force component of the requested node, load factor, material state variable of the requested element, or the increment number) of the requested labels on the requested axis. "
     "A path curve shows the requested quantity of the requested increment for the requested labels in the given order. "
     "Drawing into existing axes adds a curve and keeps the others; drawing changes no result.",
     ["inputs", "configurations"], "all quantities on both axes, components, labels (non-contiguous), increments and load cases",
     T + "; the curves of a few plots are drawn but their data is not inspected.",
     ["tools/plot_utilities.py", "tools/helper_functions2.py", "model.py"],
     [("p_history / p_path", "tools/plot_utilities.py"), ("plot_hist / plot_pth", "tools/helper_functions2.py")],
     [], ["data of the lines in the returned axes"])

prop("C16", "Model drawings and movies show the requested increment faithfully",
     "A model drawing shows every node at its (deformed) position and every element as a line between its two nodes in the requested view, coloured by the requested quantity of that very element, and one arrow per non-zero component of the load acting in that increment, at its node and scaled as requested. "
     "The increment named in the call (negative numbers count from the end) is the one drawn; increment 0 is the undeformed model with the initial load. "
     "A movie contains one frame per requested increment, in order, each showing that increment.",
     ["inputs", "configurations"], "all views, contours, increments, label sets, load cases and force scales",
     T + "; drawings are produced but never inspected.",
     ["tools/plot_utilities.py", "tools/helper_functions2.py", "tools/movie_generator.py", "model.py"],
     [("p_model / p_movie", "tools/plot_utilities.py"), ("plot_nodes / plot_elems / plot_force", "tools/helper_functions2.py"), ("png_to_gif", "tools/movie_generator.py")],
     [], ["artists of the returned axes", "files of the movie directory"])

prop("C17", "Logging never affects results or the caller's output stream",
     "For every log level and with or without a log file a run yields identical results. "
     "After creating, building or running a model - also when it fails, and for any interleaving of several models - the program's standard output stream is the one it was before. "
     "With a log file, what a model prints goes completely to its own file and to no other place; the summary of increments printed states the true final load factors.",
     ["configurations", "histories"], "all log levels, log file settings and interleavings of the operations of several models, including failing ones",
     T + "; all of them log at the default level, one model at a time.",
     ["model.py", "solvers/tpsolver.py", "solvers/zerosearch.py"],
     [("redirection of the standard output", "model.py:Model.__init__, build, run"), ("verbose branches", "solvers/tpsolver.py, solvers/zerosearch.py")],
     [("sys.stdout", "global output stream", "model.py")], ["sys.stdout", "log files", "Results"])

prop("C18", "Newton solver: result, success flag and iteration count are truthful",
     "Each iteration moves from the current point by the solution of the linear system with the derivative and the residual at that point, passing the extra arguments through unchanged. "
     "The solver stops at the first iteration where both the residual norm and the step norm are below their tolerances and reports success; otherwise it uses the full iteration budget and reports failure. "
     "It returns the last point, the number of iterations done and the residual norm and step norm belonging to that point.",
     ["inputs", "configurations"], "all functions, start points, tolerances and budgets",
     T + "; the solver is never called directly and its failure path is not observed.",
     ["solvers/zerosearch.py"],
     [("newton", "solvers/zerosearch.py:newton")], [], ["return value of newton", "points at which f and dfdx are evaluated"])

prop("C19", "The control component is selected by the documented rule",
     "Without a given initial component each load case starts with the load factor, in positive direction, as control component. "
     "Unless locked, each increment is then controlled by the component with the largest movement relative to its limit, in the direction of that movement: as predicted by the linearised solution from the last control component (if the prediction is enabled), and after a repeated attempt as found by that attempt; an attempt that did not converge keeps its control component. "
     "A locked control component is used, with its sign, in every attempt.",
     ["inputs", "histories", "configurations"], "all directions of solution paths (limit points, snap-through, snap-back), histories of attempts and control settings",
     T + "; the control component is printed but never checked.",
     ["solvers/tpsolver.py", "model.py"],
     [("pre-identification and switch of j", "solvers/tpsolver.py:pathfollow")], [("j, j0", "control component with sign", "solvers/tpsolver.py:pathfollow")],
     ["Results.R[i].j", "control displacement of every attempt"])

prop("C20", "The log is a truthful account of the run",
     "What a run reports in its log is what happened. At the levels documented for it, the log names every increment, iteration and attempt in order with its number, its control component, its residual norm and the components that moved most (with their movements relative to the limits); "
     "it announces every change of the step width with its factor, every repetition, every failure with its kind, the final load factor of every increment and the end by the limit of the observed component - and nothing that did not happen. "
     "Before the run it reports the size of the model, its free and fixed degrees of freedom and the settings in effect; between load cases the constant loads and the initial values; at the end every result that is written. A lower level only omits lines, it never changes the run.",
     ["inputs", "histories", "configurations"], "all models, settings, log levels and histories of attempts (converged, diverged, overshooting, recycled, failed, ended by the limit)",
     T + "; the log is printed but never read.",
     ["solvers/tpsolver.py", "model.py", "core/analysis.py"],
     [("account of increments, attempts and step width", "solvers/tpsolver.py:pathfollow"), ("report of model, settings and load cases", "model.py:Model.run"), ("account of Newton iterations", "solvers/zerosearch.py:newton")],
     [("logfile, log level", "destination and detail of the log", "model.py:Model.run")],
     ["standard output / log file of a run"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
