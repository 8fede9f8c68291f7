SPECIFICATION Spec
CONSTANTS Pm = 7
          K = 2
INVARIANTS Agree AllMasksUsedOnce AtEnd
