SPECIFICATION Spec
CONSTANTS
 Labels = {3, 7}
 Values = {1, 2}
 Models = {1}
 Depth = 3
 GEN = FALSE
 Kinds = {"addN", "delN", "delNx", "addE", "addEs", "delE", "mat", "geo", "geos", "mt", "et", "addB", "delB", "addF", "delF", "build"}
INVARIANTS Refines Built
PROPERTIES OthersUntouched
VIEW View
CHECK_DEADLOCK FALSE
