CONSTANTS N = 2  Mode = "loops"  Size = 5  Dump = FALSE  Scale = 1
SPECIFICATION Spec
INVARIANTS Sound Hull Delaunay Placed Recovered Staged Final Printed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
