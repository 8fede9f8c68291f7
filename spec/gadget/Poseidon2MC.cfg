SPECIFICATION Spec
CONSTANTS Pm = 7
          K = 1
INVARIANTS Agree AllMasksUsedOnce AtEnd
