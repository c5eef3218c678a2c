SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  From = {1, 1700, 1890, 9990}
  Years = 420
INVARIANTS Counted Dates Moments Zones NoOther
