SPECIFICATION Spec
CONSTANTS
  Bases = {4096, 4097, 4103, 4104, 4112, 4128, 4160, 4200, 4224, 4352, 4607}
  Sizes = {65536, 65535, 65537, 65528, 65520, 65504, 65472, 65408, 65280, 65024, 65000, 64999, 81920, 100000}
  CbSizes = {64, 72, 80, 96, 112, 128, 192, 256, 512, 1024, 4096, 8192, 16384}
  CbAligns = {8, 16, 32, 64, 128, 256, 512, 1024, 4096}
  RecSizes = {64, 72, 96, 128, 256, 1024, 4096}
  RecAligns = {8, 16, 64, 256}
INVARIANTS Placed PartlyPlaced
CHECK_DEADLOCK FALSE
