SPECIFICATION Spec
CONSTANTS
  Types = {1, 2, 3, 4, 8, 9, 10, 16, 17, 18, 19}
  ShapeTypes = {1, 3, 8}
  OutFile = "x"
INVARIANTS AcceptedReadsBack LiesDoNot Emit
CHECK_DEADLOCK FALSE
