SPECIFICATION Spec
CONSTANTS
  WB = 4
  ReadChunk = 2
  PrintChunk = 2
  MaxLen = 9
  Radices = {3, 5, 7, 10}
  Limit = 10001
INVARIANTS ReadRight BufferEnough TopFits PartsFit Decreasing PrintRight
CHECK_DEADLOCK FALSE
