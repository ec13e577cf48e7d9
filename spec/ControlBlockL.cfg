SPECIFICATION ISpec
VIEW iview
CONSTANTS
  Variant = 0
  NCo = 2
  NSlot = 2
  MaxDepth = 2
  NVal = 1
  NExc = 1
  Kinds = {1, 2}
  Feat = {"heap", "local", "try", "throw", "rethrow", "res", "push", "yield", "next", "destroy", "get", "ealloc", "mnew", "iter", "oiter", "cthrow", "efn", "masg", "each", "again"}
INVARIANTS SameContext SameValidity SameExceptions SameStacks SameValues Linear Chain
CHECK_DEADLOCK FALSE
