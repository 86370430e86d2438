SPECIFICATION GSpec
CONSTANTS
  Station <- GStation
  Body <- GBody
  Flags <- GFlags
INVARIANT OwnOnly
CHECK_DEADLOCK FALSE
