SPECIFICATION Spec
CONSTANTS PerPage = 2
 MaxSlots = 4
 Vals = {"a", "b"}
INVARIANT Refines
PROPERTY OnlyLastExtends
CHECK_DEADLOCK FALSE
