SPECIFICATION TraceSpec
CONSTANTS
  Bases = {4096}
  Sizes = {65536}
  CbSizes = {64}
  CbAligns = {8}
  RecSizes = {64}
  RecAligns = {8}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
