SPECIFICATION Spec
INVARIANT Right
CONSTANTS
    MaxN = 6
    Vals = {2, 4, 6}
    Asks = {1, 2, 3, 4, 5, 6, 7}
    Lims <- LimsMC
    MaxLeaf = 3
    Emit = FALSE
