SPECIFICATION Spec
CONSTANTS
  WB = 3
  ReadChunk = 2
  PrintChunk = 2
  MaxLen = 9
  Radices = {3, 5, 6}
  Limit = 20000
INVARIANTS ReadRight BufferEnough TopFits PartsFit Decreasing PrintRight
CHECK_DEADLOCK FALSE
