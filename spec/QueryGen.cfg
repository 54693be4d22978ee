SPECIFICATION Spec
INVARIANT Right Printed
CONSTANTS
    MaxN = 4
    Vals = {2, 4, 6}
    Asks = {1, 2, 3, 4, 7}
    Lims <- LimsGen
    MaxLeaf = 4
    Emit = TRUE
