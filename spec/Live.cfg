SPECIFICATION Fair
CONSTANTS
  NCo = 2
  NSlot = 2
  MaxDepth = 2
  NVal = 1
  NExc = 1
  Kinds = {1, 2}
  Feat = {"heap", "local", "try", "frame", "throw", "rethrow", "res", "push", "yield", "next", "destroy"}
INVARIANTS TypeOK NoLeak
PROPERTIES Unwinds Returns Releases Passes Ends
CHECK_DEADLOCK FALSE
