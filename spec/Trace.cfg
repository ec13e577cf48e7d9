SPECIFICATION TraceSpec
CONSTANTS
  NCo = 4
  NSlot = 4
  MaxDepth = 3
  NVal = 3
  NExc = 3
  Kinds = {1, 2}
  Feat = {"heap", "local", "frame", "dtor", "try", "throw", "rethrow", "handler", "res", "push", "yield", "next", "get", "reget", "destroy", "mnew", "masg", "iter", "oiter", "asg", "each", "omove", "cthrow", "how", "again", "fnhow", "ealloc", "efn"}
INVARIANTS TypeOK ChainOK OwnedOnce NoDangling NoLeak FramesOK HomesOK HandlersOK
PROPERTIES StepsOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
