SPECIFICATION Spec
CONSTANTS Arity = 2
          Height = 3
          Vals = {1, 2}
INVARIANTS Sound OnPath
