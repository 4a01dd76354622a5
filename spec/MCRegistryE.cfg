SPECIFICATION Spec
CONSTANTS
 Labels = {3, 7}
 Values = {1}
 Models = {1, 2}
 Depth = 4
 GEN = FALSE
 Kinds = {"addE", "addEs", "delE", "mat", "geo", "geos", "mt"}
INVARIANTS Refines
PROPERTIES OthersUntouched
VIEW View
CHECK_DEADLOCK FALSE
