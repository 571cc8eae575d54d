SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}
          PERRECORD = FALSE
INVARIANTS Aligned SameLength IppAligned Once Complete
PROPERTY Finishes
CHECK_DEADLOCK FALSE
