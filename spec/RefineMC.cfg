CONSTANTS N = 2  Mode = "loops"  Size = 5  Dump = FALSE  Scale = 1048576  Ratio <- ThreeHalves  Area <- NoArea  Most = 40
SPECIFICATION RSpec
INVARIANTS RSound RBounded RConforming RVertices RSubdivided RFew RPlace RDelivers
CHECK_DEADLOCK FALSE
