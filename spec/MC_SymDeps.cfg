SPECIFICATION Spec
INVARIANTS Confluent Settled Explained
CHECK_DEADLOCK FALSE
