SPECIFICATION Spec
INVARIANT Right Printed
CONSTANTS
    MaxN = 5
    Vals = {2, 4, 6}
    Asks = {1, 2, 3, 4, 7}
    Lims <- LimsGen
    MaxLeaf = 5
    Emit = TRUE
