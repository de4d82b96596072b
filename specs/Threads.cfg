SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  Classes = 3
  MaxCalls = 2
INVARIANT Memoryless
PROPERTY Ends
CHECK_DEADLOCK FALSE
