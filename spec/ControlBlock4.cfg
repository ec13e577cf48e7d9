SPECIFICATION ISpec
VIEW iview
CONSTANTS
  Variant = 0
  NCo = 4
  NSlot = 3
  MaxDepth = 1
  NVal = 1
  NExc = 1
  Kinds = {1, 2}
  Feat = {"heap", "masg", "throw", "res", "push", "yield", "next", "destroy"}
INVARIANTS SameContext SameValidity SameExceptions SameStacks SameValues Linear Chain
PROPERTY IChain
CHECK_DEADLOCK FALSE
