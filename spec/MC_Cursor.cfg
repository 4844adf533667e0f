SPECIFICATION Spec
CONSTANTS
  RECORD = TRUE
  SIZES = 4
  WIDTH = 2
  LEVELS = {0, 1, 2, 3}
  FANS = {1, 2}
  EMIT = FALSE
VIEW View
INVARIANTS Refines CurrentOk CurrentKnown Bounded Believed Emit
CHECK_DEADLOCK FALSE
