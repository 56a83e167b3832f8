CONSTANTS Depth = 2  Dump = FALSE  Random = FALSE  Lo = 1  Hi = 3
SPECIFICATION Spec
INVARIANTS Valid Kept Commute Printed
PROPERTY Progress
CHECK_DEADLOCK FALSE
