SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  From = {1, 1582, 1896, 1968, 2096, 9996}
  Years = 9
INVARIANTS Counted Dates Moments Zones NoOther
