SPECIFICATION SimSpec
CONSTANTS
  Keys = {1,2,3,4,5,6,7,8}
  Profile = "events"
  Depth = 40
INVARIANT Inv
INVARIANT Emitted
CHECK_DEADLOCK FALSE
