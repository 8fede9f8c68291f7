SPECIFICATION Spec
CONSTANTS Arity = 3
          Height = 2
          Vals = {1, 2}
INVARIANTS Sound OnPath
