SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  Classes = 3
  MaxCalls = 2
INVARIANT Memoryless
PROPERTY Ends
CHECK_DEADLOCK FALSE
