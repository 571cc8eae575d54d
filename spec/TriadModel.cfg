SPECIFICATION Spec
INVARIANTS Orthonormal Handed Uniform Invariant
PROPERTY Finishes
CHECK_DEADLOCK FALSE
