CONSTANTS
  Fmt = "ihex"
  MinLen = 1
  MaxLen = 4
  Ns = {1, 2, 3}
  Alpha = {"e0", "e1", "d", "f", "x", "bad"}
SPECIFICATION Spec
INVARIANTS Agree OffsetSound Emit
