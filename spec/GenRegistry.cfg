SPECIFICATION Spec
CONSTANTS
 Labels = {2, 5, 7, 11, 40}
 Values = {1, 2, 3, 4}
 Models = {1, 2}
 Depth = 26
 GEN = TRUE
 Kinds = {"addN", "addNs", "delN", "delNn", "delNx", "addE", "addEs", "delE", "mat", "geo", "geos", "mt", "et", "addB", "addBn", "addBs", "delB", "delBx", "addFn", "addFs", "delF", "delFx", "build", "build1", "build2"}
CHECK_DEADLOCK FALSE
