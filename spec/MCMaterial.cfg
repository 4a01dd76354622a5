SPECIFICATION Spec
CONSTANTS Depth = 5
 GEN = FALSE
INVARIANTS Admissible Additive Monotone FlowRule Slope Idempotent Continuous
CHECK_DEADLOCK FALSE
