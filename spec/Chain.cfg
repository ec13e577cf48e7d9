SPECIFICATION Spec
CONSTANTS
  Co = {a, b, c, d}
  Main = Main
  None = None
INVARIANTS Inv Unique Held
CHECK_DEADLOCK FALSE
