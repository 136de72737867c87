SPECIFICATION Spec
CONSTANTS
  WB = 64
  Simple = 24
  Karatsuba = 192
  SimpleChunk = 1024
  DivSimple = 32
  ReadChunk = 256
  PrintChunk = 16
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
